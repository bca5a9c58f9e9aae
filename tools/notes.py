DEFAULT_NOTE = "Holds for every input within the bounds stated in the harness comments and in the evidence file; nothing is claimed outside them."
LEVEL = {}
NA = {}
