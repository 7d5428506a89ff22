from vx import life, mem


def run(c):
    c.rule("stale", "Nothing is used after it was deleted, freed or moved from, nor through a reference, pointer, view or iterator into what was since changed, erased or destroyed.", 2000)
    c.rule("dangling", "What a function returns or keeps doesn't point to its own variables or temporaries.", 100)
    c.rule("captures", "A function object that refers to local variables doesn't outlive the function.", 3)
    life.run(c, mem.in_scope)
