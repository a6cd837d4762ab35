"""a controlled clock: installed before Cheetah is imported, so that every
way of reading the time (time.time, from time import time) sees it"""
import time


class Clock(object):
    t = 1000000.0


def now():
    return Clock.t


def install():
    time.time = now
