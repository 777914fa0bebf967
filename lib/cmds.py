"""The command vocabulary, restated from the documentation (not imported from the code under test)."""
NO_COMMAND = -1
STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE = 0, 1, 2, 3, 4, 5
SEQUIN_MODE, SEQUIN_EJECT, NEEDLE_SET, SLOW, FAST = 6, 7, 9, 0xB, 0xC
SET_CHANGE_SEQUENCE = 0x10
SEW_TO, NEEDLE_AT = 0xB0, 0xB1
STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK = 0xE0, 0xE1, 0xE2
TIE_ON, TIE_OFF, FRAME_EJECT = 0xE4, 0xE5, 0xE9
MATRIX_TRANSLATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN = 0xC0, 0xC1, 0xC2
MATRIX_RESET, MATRIX_SCALE, MATRIX_ROTATE = 0xC3, 0xC4, 0xC5
OPTION_MAX_STITCH_LENGTH, OPTION_MAX_JUMP_LENGTH = 0xD5, 0xD6
OPTION_EXPLICIT_TRIM, OPTION_IMPLICIT_TRIM = 0xD7, 0xD8
TIE_ON_NONE, TIE_ON_SMALL, TIE_OFF_NONE, TIE_OFF_SMALL = 0xD3, 0xD1, 0xD4, 0xD2
LONG_NONE, LONG_JUMP_NEEDLE, LONG_SEW_TO = 0xF0, 0xF1, 0xF2
SEQUIN_UTILIZE, SEQUIN_JUMP, SEQUIN_STITCH, SEQUIN_REMOVE = 0xF5, 0xF6, 0xF7, 0xF8

NAMES = {
    "NO_COMMAND": NO_COMMAND, "STITCH": STITCH, "JUMP": JUMP, "TRIM": TRIM, "STOP": STOP, "END": END,
    "COLOR_CHANGE": COLOR_CHANGE, "SEQUIN_MODE": SEQUIN_MODE, "SEQUIN_EJECT": SEQUIN_EJECT,
    "NEEDLE_SET": NEEDLE_SET, "SLOW": SLOW, "FAST": FAST, "SET_CHANGE_SEQUENCE": SET_CHANGE_SEQUENCE,
    "SEW_TO": SEW_TO, "NEEDLE_AT": NEEDLE_AT, "STITCH_BREAK": STITCH_BREAK, "SEQUENCE_BREAK": SEQUENCE_BREAK,
    "COLOR_BREAK": COLOR_BREAK, "TIE_ON": TIE_ON, "TIE_OFF": TIE_OFF, "FRAME_EJECT": FRAME_EJECT,
    "MATRIX_TRANSLATE": MATRIX_TRANSLATE, "MATRIX_SCALE_ORIGIN": MATRIX_SCALE_ORIGIN,
    "MATRIX_ROTATE_ORIGIN": MATRIX_ROTATE_ORIGIN, "MATRIX_RESET": MATRIX_RESET, "MATRIX_SCALE": MATRIX_SCALE,
    "MATRIX_ROTATE": MATRIX_ROTATE, "OPTION_MAX_STITCH_LENGTH": OPTION_MAX_STITCH_LENGTH,
    "OPTION_MAX_JUMP_LENGTH": OPTION_MAX_JUMP_LENGTH, "OPTION_EXPLICIT_TRIM": OPTION_EXPLICIT_TRIM,
    "OPTION_IMPLICIT_TRIM": OPTION_IMPLICIT_TRIM, "CONTINGENCY_TIE_ON_NONE": TIE_ON_NONE,
    "CONTINGENCY_TIE_ON_THREE_SMALL": TIE_ON_SMALL, "CONTINGENCY_TIE_OFF_NONE": TIE_OFF_NONE,
    "CONTINGENCY_TIE_OFF_THREE_SMALL": TIE_OFF_SMALL, "CONTINGENCY_LONG_STITCH_NONE": LONG_NONE,
    "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE": LONG_JUMP_NEEDLE, "CONTINGENCY_LONG_STITCH_SEW_TO": LONG_SEW_TO,
    "CONTINGENCY_SEQUIN_UTILIZE": SEQUIN_UTILIZE, "CONTINGENCY_SEQUIN_JUMP": SEQUIN_JUMP,
    "CONTINGENCY_SEQUIN_STITCH": SEQUIN_STITCH, "CONTINGENCY_SEQUIN_REMOVE": SEQUIN_REMOVE,
}
NAME_OF = {v: k for k, v in NAMES.items()}
SEWING = (STITCH, SEW_TO, NEEDLE_AT)


def base(cmd):
    return cmd & 0xFF


def name(cmd):
    b = cmd if cmd == -1 else cmd & 0xFF
    n = NAME_OF.get(b, "0x%x" % b)
    t, nd, o = split(cmd)
    for tag, v in (("t", t), ("n", nd), ("o", o)):
        if v is not None:
            n += " %s%d" % (tag, v)
    return n


def split(cmd):
    if cmd == -1:
        return None, None, None
    out = []
    for sh in (8, 16, 24):
        v = (cmd >> sh) & 0xFF
        out.append(v - 1 if v else None)
    return tuple(out)


def pack(cmd, thread=None, needle=None, order=None):
    w = cmd & 0xFF
    for sh, v in ((8, thread), (16, needle), (24, order)):
        if v is not None:
            w |= (v + 1) << sh
    return w


def show(stitches, limit=80):
    return ["%s @ %r,%r" % (name(s[2]), s[0], s[1]) for s in stitches[:limit]] + (
        ["... %d more" % (len(stitches) - limit)] if len(stitches) > limit else []
    )
