"""C19: JMS to EOS."""
from vlib import env, drive

R = [('WET', 'JMS', 'EOS')]


def run(run):
    drive.standard(run, env.load(), R, run.n(6, 30), run.n(1200, 2000), 20, 400)
