from vx import memcheck


def run(c):
    c.rule("no-wrap", "Every subtraction of unsigned sizes, counts and offsets is preceded, on every path, by what makes it not wrap (forward must-facts: linear inequalities).", 80)
    c.rule("div", "Every integer division or remainder has a divisor that cannot be zero on any path.", 5)
    c.rule("widen", "No 32 bit sum, product or shift that may not fit is computed before being widened to a 64 bit size or offset.", 0)
    memcheck.decide(c, {"sub": "no-wrap", "div": "div", "w32": "widen"}, {"sub", "div", "w32"})
    c.assumptions.append("sites the facts cannot settle are a frozen table per function, each with its reason (vx/memcheck.py)")
