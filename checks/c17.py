"""C17: JMS to flavio, WET, WET-4, WET-3."""
from vlib import env, drive

R = [(e, 'JMS', 'flavio') for e in ('WET', 'WET-4', 'WET-3')]


def run(run):
    drive.standard(run, env.load(), R, run.n(3, 12), run.n(150, 2000), 25, 400)
