""" Lets a working copy and the server diverge in every combination """
from vlib import gen

def base(ctx, team, n = None):
    """ the first copy commits some files, everybody updates """
    rng = ctx.rng
    c0 = team.copies[0]
    pool = list(team.pool)
    rng.shuffle(pool)
    for p in pool[:n or rng.randrange(2, len(pool))]: c0.write(p, gen.content(rng))
    team.commit(c0, 'base')
    for c in team.copies[1:]: team.update(c)

def server_side(ctx, team, c0, density = 0.6, commits = None):
    """ c0 (up to date) commits changes to many paths, possibly several times to the same one """
    rng = ctx.rng
    for i in range(commits or rng.choice([1, 1, 2, 3])):
        for p in team.pool:
            if rng.random() > density: continue
            if p in c0.local:
                r = rng.random()
                if r < 0.4: c0.remove(p)
                elif r < 0.9: c0.write(p, gen.content(rng))
                else: c0.write(p, c0.local[p])
            elif rng.random() < 0.5: c0.write(p, gen.content(rng))
        if not c0.status(): c0.write(team.pool[0], gen.unique(rng))
        team.commit(c0, 'server %d' % i)

def client_side(ctx, team, c, density = 0.6):
    rng = ctx.rng
    for p in team.pool:
        if rng.random() > density: continue
        if p in c.local:
            r = rng.random()
            if r < 0.35: c.remove(p, prune = rng.random() < 0.7)
            elif r < 0.85: c.write(p, gen.content(rng))
            elif r < 0.93 and p in team.hist.files: c.write(p, team.hist.files[p]) # the same edit was made on both sides
            else: c.write(p, c.local[p])
        elif rng.random() < 0.6: c.write(p, gen.content(rng))
