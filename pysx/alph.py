"""Named character classes (bit masks over core.ALPHABET)."""
from .core import FULL, mask_chars, mask_pred

LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
DIGITS = "0123456789"
ALPH = {
    "any": FULL,
    "digit": mask_chars(DIGITS),
    "digit19": mask_chars("123456789"),
    "alpha": mask_chars(LOWER + UPPER),
    "lower": mask_chars(LOWER),
    "alnum": mask_chars(LOWER + UPPER + DIGITS),
    # characters of ordinary option values: no shell quoting needed
    "word": mask_chars(LOWER + UPPER + DIGITS + "_./:+@~^!") | mask_chars([0xE9, 0x436, 0x3042]),
    "wordx": mask_chars(LOWER + UPPER + DIGITS + "_./:+@~^!-=,") | mask_chars([0xE9, 0x436, 0x3042]),
    # everything on one line except quote, backslash and control characters
    "text": mask_pred(lambda c: c.isprintable() and c not in "\"'\\" or c == " "),
    # printable, not special to any splitting or normalisation
    "rowtext": mask_pred(lambda c: c.isprintable() and c not in "\"'\\ ,./#" and not c.isspace()),
    "rowword": mask_chars(LOWER + UPPER + DIGITS + "_:+@~^!") | mask_chars([0xE9, 0x436, 0x3042]),
    "line": mask_pred(lambda c: len(("a" + c + "b").splitlines()) == 1),
    "ascii": mask_pred(lambda c: ord(c) < 127),
    "printable": mask_pred(lambda c: 32 <= ord(c) < 127),
    "wordc": mask_chars(LOWER + UPPER + DIGITS + "_./:+@~^!,"),
    "option": mask_chars(LOWER + UPPER + DIGITS + "-_"),
    "commaish": mask_chars("a,\t ."),
    "pathish": mask_chars("/.a"),
    "intish": mask_chars("0123456789+-ax. ") | mask_chars([0x661]),
    "alnumdot": mask_chars(LOWER + DIGITS + "."),
    "space": mask_pred(str.isspace),
    "blank": mask_chars(" \t"),
}
