"""C20: JMS to FormFlavor."""
from vlib import env, drive

R = [('WET', 'JMS', 'formflavor')]


def run(run):
    drive.standard(run, env.load(), R, run.n(6, 30), run.n(1200, 2000), 20, 400)
