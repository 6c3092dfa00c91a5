"""Development: every profile at once."""
from harness import Check, Family
from gen import Gen

def case(env, i):
    g = Gen(env.rng, files=("ta.txt", "tb.txt"), weights={"wfile": 1, "rfile": 1, "random": 1}, size=env.rng.randint(5, 35), routines=env.rng.randint(0, 4))
    src = g.program()
    env.differential(src, stdin="\n".join(g.stdin) + "\n", lines=True, names=True)

CHECK = Check("C00", [Family("prog", case, 2000)], "dev", variants=("asan","plain"))
