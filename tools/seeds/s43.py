ID='char-after-protection'
PROPERTY='P25'
NEEDS='protection under which the timber chars before it falls off, and a fire longer than the accelerated phase'
BREAKS='charring behind the protection is taken at full speed once the accelerated charring ends, so the charring depth jumps'
EDITS=[('metku/eurocodes/en1995/en1995_1_2.py','return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0','return (fp.t_f - fp.t_ch) * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0')]
DEMO='''
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    import metku.framefem.framefem
    import metku.frame2d.frame2d
    from metku.eurocodes.en1995.en1995_1_2 import d_char_n
class P:
    t_ch, t_f, t_a = 30.0, 50.0, 60.0
d = [d_char_n(P, t / 10, 0.8) for t in range(0, 1200)]
jump = max(abs(b - a) for a, b in zip(d, d[1:]))
print(jump)
raise SystemExit(0 if jump < 0.5 else 1)
'''
