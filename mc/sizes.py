"""Sizes at which bounded buffers, chunked loops, caps and progress reports of programs tend to change their ways."""
EDGES = [4, 5, 8, 10, 16, 20, 25, 30, 32, 40, 50, 60, 64, 75, 80, 100, 120, 128, 150, 200, 250, 256, 300, 400, 500, 512, 600, 750, 800, 1000, 1024, 1500, 2000, 2048, 2500, 3000, 4000, 4096, 5000, 8192, 10000]


def sizes(top, bottom=3, around=1):
    """Every size around the edges from bottom to top."""
    return sorted({n + d for n in EDGES for d in range(-around, around + 1) if bottom <= n + d <= top})


def word(i, first='Z', n=3):
    """A capitalised word, different for every i."""
    s = ''
    for _ in range(n):
        i, d = divmod(i, 26)
        s = chr(97 + d) + s
    return first + s
