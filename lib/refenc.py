"""Reference model of the encoder, written from the documented semantics.

encode(stitches, nthreads, settings) -> (out, used)
   out: list of (x, y, command, thread, needle); `thread` is the thread index selected by a colour event
   used: thread indexes in order of colour blocks
The monitors compare what the real encoder emitted with this, event by event.
"""
import math

from .cmds import *


def aff_mul(a, b):
    """row-vector affine maps: apply a, then b. (a,b,c,d,e,f): x' = a x + c y + e ; y' = b x + d y + f"""
    return (
        a[0] * b[0] + a[1] * b[2],
        a[0] * b[1] + a[1] * b[3],
        a[2] * b[0] + a[3] * b[2],
        a[2] * b[1] + a[3] * b[3],
        a[4] * b[0] + a[5] * b[2] + b[4],
        a[4] * b[1] + a[5] * b[3] + b[5],
    )


IDENT = (1, 0, 0, 1, 0, 0)


def aff_t(x, y):
    return (1, 0, 0, 1, x, y)


def aff_s(x, y):
    return (x, 0, 0, y, 0, 0)


def aff_r(deg):
    t = math.radians(deg)
    return (math.cos(t), math.sin(t), -math.sin(t), math.cos(t), 0, 0)


def aff_inv(m):
    a, b, c, d, e, f = m
    det = a * d - b * c
    return (d / det, -b / det, -c / det, a / det, (c * f - d * e) / det, (b * e - a * f) / det)


def aff_pt(m, x, y):
    return m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]


INF = float("inf")


class Ref:
    def __init__(self, stitches, nthreads, s):
        self.src = stitches
        self.nthreads = nthreads
        self.max_stitch = s.get("max_stitch", INF)
        self.max_jump = s.get("max_jump", INF)
        self.full_jump = s.get("full_jump", False)
        self.round = s.get("round", False)
        self.needle_count = s.get("needle_count", 5)
        self.tcc = s.get("thread_change_command", COLOR_CHANGE)
        if self.tcc == NEEDLE_SET and self.needle_count <= 1:
            self.tcc = STOP
        self.seqc = s.get("sequin_contingency", SEQUIN_JUMP)
        self.speeds = s.get("writes_speeds", True)
        self.xtrim = s.get("explicit_trim", False)
        self.ton = self._tie(s.get("tie_on", TIE_ON_NONE), TIE_ON_SMALL)
        self.toff = self._tie(s.get("tie_off", TIE_OFF_NONE), TIE_OFF_SMALL)
        self.longc = s.get("long_stitch_contingency", LONG_JUMP_NEEDLE)
        m = IDENT
        if s.get("translate") is not None:
            m = aff_mul(aff_t(*s["translate"]), m)
        sc = s.get("scale")
        if sc is not None:
            m = aff_mul(aff_s(*(sc if isinstance(sc, (tuple, list)) else (sc, sc))), m)
        if s.get("rotate") is not None:
            m = aff_mul(aff_r(s["rotate"]), m)
        self.m = m
        self.x = self.y = 0
        self.trimmed = True
        self.jumping = False
        self.sequin = False
        self.order = -1
        self.out = []
        self.used = []
        self.plan = self.make_plan()

    @staticmethod
    def _tie(v, small):
        if v is True:
            return True
        if v is False:
            return False
        return v == small

    # ---- thread plan
    def make_plan(self):
        plan = {0: [None, None, None]}  # thread, needle, kind
        look = 0
        idx = 0
        for st in self.src:
            b = base(st[2]) if st[2] != -1 else -1
            if idx == 0 and b in (STITCH, SEW_TO, NEEDLE_AT, SEQUIN_EJECT):
                idx = 1
            t, n, o = split(st[2])
            if b == SET_CHANGE_SEQUENCE:
                if o is None:
                    cur = plan.setdefault(look, [None, None, None])
                    look += 1
                else:
                    cur = plan.setdefault(o, [None, None, None])
            elif b in (NEEDLE_SET, COLOR_CHANGE, COLOR_BREAK):
                cur = plan.setdefault(idx, [None, None, None])
                if idx >= look:
                    look = idx + 1
                idx += 1
            else:
                continue
            if t is not None:
                cur[0] = t
            if n is not None:
                cur[1] = n
        ti = 0
        ni = 1
        for k, cur in plan.items():
            if cur[0] is None:
                cur[0] = ti
                ti += 1
            if cur[1] is None:
                cur[1] = (ni - 1) % self.needle_count + 1
                ni += 1
        return plan

    # ---- output helpers
    def emit(self, cmd, x=None, y=None, thread=None, needle=None):
        self.out.append((self.x if x is None else x, self.y if y is None else y, cmd, thread, needle))

    def goto(self, x, y):
        self.x, self.y = x, y

    def gap(self, x, y, limit, cmd):
        dx, dy = x - self.x, y - self.y
        if abs(dx) <= limit and abs(dy) <= limit:
            return
        if cmd == JUMP and self.sequin:
            self.toggle()
        steps = int(max(math.ceil(abs(dx) / limit), math.ceil(abs(dy) / limit)))
        x0, y0 = self.x, self.y
        for k in range(1, steps):
            self.goto(x0 + dx * k / steps, y0 + dy * k / steps)
            self.emit(cmd)

    def toggle(self):
        if self.seqc == SEQUIN_UTILIZE:
            self.emit(SEQUIN_MODE)
            self.sequin = not self.sequin

    def next_change(self):
        self.order += 1
        t, n = self.plan[self.order][:2]
        if self.tcc == COLOR_CHANGE:
            self.used.append(t)
            if self.order != 0:
                self.emit(COLOR_CHANGE, thread=t, needle=n)
        elif self.tcc == NEEDLE_SET:
            self.used.append(t)
            self.emit(NEEDLE_SET, thread=t, needle=n)
        elif self.tcc == STOP:
            self.used.append(t)
            self.emit(STOP, thread=t, needle=n)
        self.trimmed = True

    def trim(self):
        if self.sequin:
            self.toggle()
        self.emit(TRIM)
        self.trimmed = True

    def neighbour(self, i):
        if not 0 <= i < len(self.src):
            return None
        st = self.src[i]
        if st[2] == -1 or base(st[2]) not in (STITCH, SEW_TO, NEEDLE_AT, SEQUIN_EJECT):
            return None
        return aff_pt(self.m, st[0], st[1])

    def lock(self, anchor):
        if anchor is None:
            return
        ax, ay = anchor
        d = math.hypot(ax - self.x, ay - self.y)
        if d > self.max_stitch:
            ax = self.x + (ax - self.x) * self.max_stitch / d
            ay = self.y + (ay - self.y) * self.max_stitch / d
        for f in (0.33, 0.66, 0.33, 0.0):
            self.emit(STITCH, self.x + (ax - self.x) * f, self.y + (ay - self.y) * f)

    def tie_on(self, i):
        if self.ton:
            self.lock(self.neighbour(i + 1))

    def tie_off(self, i):
        if self.toff:
            self.lock(self.neighbour(i - 1))

    def begin(self, i, x, y):
        """first needle drop after a break: travel, drop, tie on"""
        if self.order == -1:
            self.next_change()
        self.trimmed = False
        self.gap(x, y, self.max_jump, JUMP)
        if self.full_jump and (self.x != x or self.y != y):
            self.jump_at(x, y)
        self.goto(x, y)
        self.emit(STITCH)
        self.tie_on(i)

    def jump_at(self, x, y):
        if self.sequin:
            self.toggle()
        self.goto(x, y)
        self.emit(JUMP)

    def jump_to(self, x, y):
        self.gap(x, y, self.max_jump, JUMP)
        self.jump_at(x, y)

    def needle_to(self, x, y):
        self.gap(x, y, self.max_stitch, JUMP)
        self.goto(x, y)
        self.emit(STITCH)

    def sew_to(self, x, y):
        self.gap(x, y, self.max_stitch, STITCH)
        self.goto(x, y)
        self.emit(STITCH)

    def more_sewing(self, i):
        for st in self.src[i:]:
            b = base(st[2]) if st[2] != -1 else -1
            if b in (STITCH, NEEDLE_AT, SEW_TO, TIE_ON, SEQUIN_EJECT):
                return True
            if b == END:
                return False
        return False

    def run(self):
        ended = False
        for i, st in enumerate(self.src):
            if st[2] == -1:
                continue
            b = base(st[2])
            x, y = aff_pt(self.m, st[0], st[1])
            if self.round:
                x, y = round(x), round(y)
            if b in SEWING:
                if self.trimmed:
                    self.begin(i, x, y)
                elif self.jumping:
                    self.needle_to(x, y)
                    self.jumping = False
                elif b == NEEDLE_AT or b == STITCH and self.longc == LONG_JUMP_NEEDLE:
                    self.needle_to(x, y)
                elif b == SEW_TO or self.longc == LONG_SEW_TO:
                    self.sew_to(x, y)
                else:
                    self.goto(x, y)
                    self.emit(STITCH)
            elif b == STITCH_BREAK:
                self.jumping = True
            elif b in (TRIM, SEQUENCE_BREAK):
                if not self.trimmed:
                    self.tie_off(i)
                    self.trim()
            elif b == FRAME_EJECT:
                if not self.trimmed:
                    self.tie_off(i)
                    self.trim()
                self.jump_to(x, y)
                self.emit(STOP)
                self.trimmed = True
            elif b == COLOR_BREAK:
                if self.order < 0:
                    continue
                if not self.trimmed:
                    self.tie_off(i)
                    if self.xtrim:
                        self.trim()
                if self.more_sewing(i):
                    self.next_change()
            elif b in (COLOR_CHANGE, NEEDLE_SET):
                if not self.trimmed:
                    self.tie_off(i)
                    if self.xtrim:
                        self.trim()
                self.next_change()
            elif b == TIE_OFF:
                self.tie_off(i)
            elif b == TIE_ON:
                self.tie_on(i)
            elif b == JUMP:
                if not self.jumping:
                    self.jump_to(x, y)
            elif b == SEQUIN_MODE:
                self.toggle()
            elif b == SEQUIN_EJECT:
                if self.seqc == SEQUIN_REMOVE:
                    if self.order == -1:
                        self.next_change()
                    continue
                if self.trimmed:
                    self.begin(i, x, y)
                if not self.sequin:
                    self.toggle()
                self.gap(x, y, self.max_stitch, STITCH)
                self.goto(x, y)
                self.emit({SEQUIN_UTILIZE: SEQUIN_EJECT, SEQUIN_JUMP: JUMP, SEQUIN_STITCH: STITCH}[self.seqc])
            elif b == STOP:
                self.emit(STOP)
                self.trimmed = True
            elif b in (SLOW, FAST):
                if self.speeds:
                    self.emit(b)
            elif b == END:
                self.emit(END)
                ended = True
                break
            elif b == TIE_ON_SMALL:
                self.ton = True
            elif b == TIE_ON_NONE:
                self.ton = False
            elif b == TIE_OFF_SMALL:
                self.toff = True
            elif b == TIE_OFF_NONE:
                self.toff = False
            elif b == OPTION_MAX_JUMP_LENGTH:
                self.max_jump = st[0]
            elif b == OPTION_MAX_STITCH_LENGTH:
                self.max_stitch = st[0]
            elif b == OPTION_EXPLICIT_TRIM:
                self.xtrim = True
            elif b == OPTION_IMPLICIT_TRIM:
                self.xtrim = False
            elif b in (LONG_NONE, LONG_JUMP_NEEDLE, LONG_SEW_TO):
                self.longc = b
            elif b in (SEQUIN_REMOVE, SEQUIN_STITCH, SEQUIN_JUMP):
                if self.sequin:
                    self.toggle()
                self.seqc = b
            elif b == SEQUIN_UTILIZE:
                self.seqc = b
            elif b == MATRIX_TRANSLATE:
                self.m = aff_mul(aff_t(st[0], st[1]), self.m)
            elif b == MATRIX_SCALE_ORIGIN:
                self.m = aff_mul(aff_s(st[0], st[1]), self.m)
            elif b == MATRIX_ROTATE_ORIGIN:
                self.m = aff_mul(aff_r(st[0]), self.m)
            elif b in (MATRIX_SCALE, MATRIX_ROTATE):
                px, py = aff_pt(aff_inv(self.m), self.x, self.y)
                mid = aff_s(st[0], st[1]) if b == MATRIX_SCALE else aff_r(st[0])
                self.m = aff_mul(aff_mul(aff_mul(aff_t(-px, -py), mid), aff_t(px, py)), self.m)
            elif b == MATRIX_RESET:
                self.m = IDENT
        if not ended:
            self.emit(END)
        return self.out, self.used


def encode(stitches, nthreads, settings):
    return Ref([tuple(s) for s in stitches], nthreads, settings).run()
