#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt: the repaired defects, from /repo's log."""
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    "d7ac346": "C18", "97e4adc": "C32", "0c376d0": "C33", "0f524bf": "C36", "6d544b5": "C37", "dc13078": "C39", "04acae2": "C41",
    "f9d68f6": "C03", "25e8af3": "C04", "40f3b31": "C05", "2e0ee24": "C02", "89b90ab": "C05", "53c73d5": "C05", "0063ea6": "C05",
    "74307f8": "C06", "47ab298": "C08", "8174d4f": "C09", "e81c2b4": "C09", "516570e": "C13", "e7e2546": "C09", "c1e3678": "C09", "7ed3900": "C09", "0820392": "C13", "24240e6": "C13",
    "c0178a3": "C10", "32c8062": "C10", "89c9759": "C10", "97d5c55": "C11", "b9b84f5": "C12", "10e0a71": "C12", "7243561": "C12", "1a25e4b": "C12", "fc568b2": "C12", "d350f91": "C12", "2bd438f": "C12",
    "c83a3ba": "C16", "dccf428": "C16", "c0512c1": "C17", "959295d": "C22", "bd75e19": "C22", "e4431ae": "C22", "319806b": "C21", "25368c8": "C29", "84f4058": "C20",
    "18e43ea": "C19", "e91c5dd": "C19", "8e5bf1b": "C19", "a0ee22f": "C23", "53d0ab7": "C15", "dea14f2": "C15", "3064c19": "C26", "f92b001": "C26", "4cc45f5": "C26", "029ae70": "C27", "062ae12": "C27", "1128374": "C24",
}
HEAD = """# Findings of these checks in norcalrdf/pymantic.
# Unrepaired findings (none at present), one per line:  known: property=<id> key=<key> <what fails>
# A check prints KNOWN-FINDING for a listed key only; anything else is a VIOLATION.
# Repaired defects; these lines suppress nothing:
"""
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()
with open(os.path.join(V, "KNOWN_FINDINGS.txt"), "w") as f:
    f.write(HEAD)
    for line in log[1:]:
        h, s = line.split(" ", 1)
        f.write("fixed: property=%s %s %s\n" % (PROP[h], h, s[len("fix: "):]))
