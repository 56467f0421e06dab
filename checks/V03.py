import math
import random

import pygame

import rt
import runlib
import scenes
import shapes
import vlib

MARK, JOINT = (0, 0, 255), (0, 255, 0)


def color(col, x):
    return 'w' if x == (255, 255, 255) else 'm' if x == MARK else 'j' if x == JOINT else 'b' if x == col else 'x'


def pixels(rng, screen, places, col, reach, n):
    """Samples of a picture, at random and next to given places; what is found around them within reach."""
    w, h = screen.get_size()
    out, seen = [], set()
    for _ in range(n):
        if places and rng.random() < .7:
            x, y = rng.choice(places)
            q = (round(x + rng.choice([0, 0, rng.gauss(0, 3)])), round(y + rng.choice([0, 0, rng.gauss(0, 3)])))
        else:
            q = (rng.randrange(w), rng.randrange(h))
        if q in seen or not (0 <= q[0] < w and 0 <= q[1] < h):
            continue
        seen.add(q)
        near = {color(col, tuple(screen.get_at((x, y)))[:3]) for x in range(max(0, q[0] - reach), min(w, q[0] + reach + 1))
                for y in range(max(0, q[1] - reach), min(h, q[1] + reach + 1))}
        out.append({'q': list(q), 'color': color(col, tuple(screen.get_at(q))[:3]), 'near': sorted(near),
                    'inner': reach <= q[0] < w - reach and reach <= q[1] < h - reach})
    return out


class C(runlib.RunCheck):
    id = 'V03'
    level = 'exploration'
    technique = 'TLA+ specification of pictures; TLC validation of the pixels that the code draws'
    rule = ('pictures of bodies of all kinds, thicknesses and scales after random movements and of joints in moving worlds, sampled at up to 60 '
            'pixels, most of them near the outline or the mark')
    assumptions = ['rounding to whole pixels may shift a picture by up to 4 pixels', 'bodies are at least 12 pixels across']

    def cases(self, rng, tier):
        q = tier == 'quick'
        return [{'id': 'body%d' % i, 'seed': rng.random()} for i in range(420 if q else 9000)] + \
            [{'id': 'joint%d' % i, 'seed': rng.random()} for i in range(300 if q else 3000)]

    def run_case(self, c):
        rng = random.Random(c['seed'])
        return self.joints(rng) if c['id'].startswith('joint') else self.body(rng)

    def body(self, rng):
        size = (rng.randint(80, 160), rng.randint(80, 160))
        while True:
            s = shapes.shape(rng, rng.choice(['c', 'r', 'h']))
            scale = rng.choice([1, 2, 5, rng.uniform(.5, 20)])
            if 8 <= shapes.reach(s) * scale <= 60 and (s['k'] != 'r' or min(s['d']) * scale > 8):
                break
        th = rng.choice([0, 1, 1, 2, 3])
        col = (rng.randint(1, 254), rng.randint(0, 254), rng.randint(1, 100))
        pos = [rng.uniform(-.1, 1.1) * size[i] / scale for i in (0, 1)]
        kw = {} if (th == 1 and rng.random() < .5) else {'thickness': th}
        b = shapes.make(s, pos, rng.choice([0, rng.uniform(-7, 7)]), col=col, vel=[rng.uniform(-3, 3) for _ in range(3)], **kw)
        for _ in range(rng.choice([0, 1, 2, 3])):
            if rng.random() < .5:
                b.set_p(b.p + rt.T([rng.uniform(-2, 2) for _ in range(3)]))
            else:
                b.move(rng.uniform(0, 1))
        screen = pygame.Surface(size)
        screen.fill((255, 255, 255))
        if scale == 1 and rng.random() < .5:
            b.draw(screen)
        else:
            b.draw(screen, pixels_per_meter=scale)
        d = rt.body(b)
        d['rect'] = s['k'] == 'r'
        # where to look; what is to be seen there is for the specification to say
        x, y = [v * scale for v in b.pos.tolist()]
        places = [(x, y)]
        for _ in range(25):
            if s['k'] == 'c':
                a = rng.choice([b.rot.item(), b.rot.item(), rng.uniform(0, 7)])
                r = scale * s['r'] * rng.choice([1, 1, rng.random()])
                places.append((x + r * math.cos(a), y + r * math.sin(a)))
            else:
                vs = [(v * scale).tolist() for v in b.verts]
                i = rng.randrange(len(vs))
                (p, q), (u, v) = vs[i], vs[(i + rng.choice([1, 1, 2])) % len(vs)]
                t = rng.random()
                places.append((x + p + t * (u - p), y + q + t * (v - q)))
        return [{'k': 'body', 'body': d, 'scale': vlib.real(scale), 'th': th, 'pixels': pixels(rng, screen, places, col, 5, 60)}]

    def joints(self, rng):
        sc = {'bodies': [], 'joints': [], 'excl': [[0, 1]], 'dt': 1 / 30}
        for _ in range(2):
            sc['bodies'].append(scenes.body(rng, 'crh', (rng.uniform(3, 12), rng.uniform(3, 12))))
        k = rng.choice(['joint', 'joint', 'fixed', 'fixed', 'x', 'y', 'rot', 'total', 'pin'])
        if k in ('joint', 'pin'):
            sc['joints'].append({'k': 'joint', 'i': 0, 'j': 1 if k == 'joint' else None, 'pos': [rng.uniform(3, 12), rng.uniform(3, 12)]})
        else:
            sc['joints'].append({'k': k, 'i': 0, 'j': 1})
        w = scenes.build(sc, strict_no_penetration=False)
        for _ in range(rng.randint(0, 6)):
            w.step()
        scale = rng.choice([1, 5, 8] + [rng.uniform(2, 10)] * 3)
        screen = pygame.Surface((120, 120))
        screen.fill((255, 255, 255))
        j = w.joints[0][0]
        if scale == 1:
            j.draw(screen)
        else:
            j.draw(screen, pixels_per_meter=scale)
        # the place of a joint is that of its anchor, or of the body it holds
        ends = [rt.vec(j.pos, 2)] if k in ('joint', 'pin') else [rt.vec(b.pos, 2) for b in w.bodies[:2 if k == 'fixed' else 1]]
        at = [[scale * vlib.unreal(x) for x in e] for e in ends]
        places = at + [[at[0][i] + t * (at[-1][i] - at[0][i]) for i in (0, 1)] for t in (.2, .5, .8)]
        return [{'k': 'joint', 'joint': {'kind': k, 'ends': ends}, 'scale': vlib.real(scale),
                 'pixels': pixels(rng, screen, places, None, 4 if k == 'fixed' else 7, 60)}]


check = C()
