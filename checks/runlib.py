"""Recording what recorders, run loops and pictures show."""
import os
import random
import shutil
import time
import zlib

import pygame

import rt
import vlib


def token(surface):
    return zlib.crc32(pygame.image.tostring(surface, 'RGB')) & 0x7fffffff


def scratch(check, name):
    path = os.path.join(check.outdir, 'scratch', name.replace('/', '_'))
    os.makedirs(path)
    return path


def drop(path):
    assert '/out/' in path and '/scratch/' in path
    shutil.rmtree(path, ignore_errors=True)


def noise(rng, surface):
    """Pixels that no other call shows."""
    w, h = surface.get_size()
    surface.fill([rng.randrange(256) for _ in range(3)])
    for _ in range(6):
        surface.set_at((rng.randrange(w), rng.randrange(h)), [rng.randrange(256) for _ in range(3)])


def frames(path):
    """What frames 0, 1, ... of a folder show, and how many other files there are."""
    found, others = {}, 0
    for name in os.listdir(path):
        stem = os.path.splitext(name)[0]
        if name == 'notes.txt':         # was there before
            continue
        if stem.isdigit() and int(stem) not in found:
            found[int(stem)] = token(pygame.image.load(os.path.join(path, name)))
        else:
            others += 1
    return [found.get(i, -1) for i in range(max(found, default=-1) + 1)], others


class Clock:
    """The wall's clock, which only passes as told."""
    NAMES = ('time', 'perf_counter', 'monotonic', 'sleep')

    def __init__(self):
        self.now = 1024.

    def __enter__(self):
        self.kept = {n: getattr(time, n) for n in self.NAMES}
        for n in self.NAMES[:3]:
            setattr(time, n, lambda: self.now)
        time.sleep = self.sleep
        return self

    def __exit__(self, *_):
        for n, f in self.kept.items():
            setattr(time, n, f)

    def sleep(self, s):
        if s < 0:
            raise ValueError('sleep length must be non-negative')
        self.now += s


class RunCheck(vlib.Check):
    module = 'RunJudge'
    limit = 60

    def behaviours(self, tier, module, quick, thorough, rng):
        behs, stats = vlib.behaviours(module, module + ('.cfg' if tier == 'quick' else 'T.cfg'), self.outdir)
        self.generated = [stats]
        behs = sorted(behs, key=repr)
        n = quick if tier == 'quick' else thorough
        return rng.sample(behs, n) if len(behs) > n else behs
