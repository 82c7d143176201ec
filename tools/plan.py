"""property -> [(world, binary)], in the order they are run."""
PLAN = {
    "C16": [("real", "ints"), ("real-nd", "ints")],
    "C25": [("real", "ints")],
    "C05": [("real", "field"), ("zoo", "field"), ("zoo-nd", "field"), ("real-nd", "field")],
    "C06": [("real", "field"), ("zoo", "field"), ("zoo-nd", "field"), ("real-nd", "field")],
    "C07": [("real", "field"), ("zoo", "field"), ("zoo-nd", "field"), ("real-nd", "field")],
    "C08": [("real", "field"), ("zoo", "field"), ("zoo-nd", "field"), ("real-nd", "field")],
    "C12": [("real", "tors"), ("mini", "tors"), ("mini-nd", "tors")],
    "C13": [("real", "tors"), ("mini", "tors"), ("mini-nd", "tors")],
    "C14": [("real", "tors"), ("mini", "tors"), ("mini-nd", "tors")],
    "C15": [("real", "tors"), ("mini", "tors"), ("mini-nd", "tors")],
    "C17": [("real", "isog"), ("mini", "isog"), ("mini-nd", "isog")],
    "C18": [("real", "isog"), ("mini", "isog"), ("mini-nd", "isog")],
    "C19": [("real", "isog"), ("mini", "isog"), ("mini-nd", "isog")],
    "C21": [("real", "tors"), ("mini", "tors"), ("mini-nd", "tors")],
    "C01": [("real", "festa"), ("duo", "festa"), ("nano", "festa"), ("nano-nd", "festa")],
    "C02": [("real", "festa"), ("mini", "festa"), ("duo", "festa"), ("nano", "festa"), ("nano-nd", "festa")],
    "C03": [("real", "festa"), ("mini", "festa"), ("duo", "festa"), ("nano", "festa"), ("nano-nd", "festa")],
    "C04": [("real", "festa"), ("duo", "festa"), ("nano", "festa"), ("nano-nd", "festa")],
    "C20": [("real", "theta"), ("mini", "theta"), ("nano", "theta"), ("nano-nd", "theta")],
    "C22": [("real", "festa"), ("mini", "festa"), ("duo", "festa"), ("nano", "festa"), ("nano-nd", "festa")],
    "C27": [("real", "festa"), ("real-nd", "festa"), ("nano", "festa"), ("nano-nd", "festa")],
    "C28": [("real", "festa"), ("real", "field"), ("real", "curve"), ("zoo", "field"), ("zoo", "curve"), ("pico", "festa"), ("nano", "festa"), ("duo", "festa"), ("nano-nd", "festa")],
    "C24": [("real", "hist"), ("nano", "hist"), ("duo", "hist")],
    "C26": [("real", "field"), ("real", "curve"), ("zoo", "field"), ("zoo", "curve"), ("zoo-nd", "field"), ("zoo-nd", "curve")],
    "C09": [("real", "curve"), ("zoo", "curve"), ("zoo-nd", "curve")],
    "C10": [("real", "curve"), ("zoo", "curve"), ("zoo-nd", "curve")],
    "C11": [("real", "curve"), ("zoo", "curve"), ("zoo-nd", "curve")],
    "C23": [("real", "curve"), ("zoo", "curve"), ("zoo-nd", "curve")],
    "C31": [("real", "model"), ("zoo", "model"), ("zoo-nd", "model")],
    "C32": [("real", "shell"), ("nano", "shell"), ("duo", "shell"), ("nano-nd", "shell")],
    "C33": [("real", "text"), ("mini", "text"), ("nano", "text"), ("nano-nd", "text")],
}
ASSUME = {
    "*": [],
    "C06": ["sums/differences of two products are only defined (and only checked) for moduli below a third of the limb range, as the code documents"],
}
NOTES = {
    "*": "Exhaustive within the stated spaces (listed with sizes in the evidence file); trusts the reference model in /verif/mc/src, num-bigint and the compiler.",
}
