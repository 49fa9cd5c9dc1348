"""Shoalest gridding returns the shoalest sounding of each cell and its uncertainty."""
from bgv.checks import c02

EXAMPLES = {'quick': 1200, 'thorough': 20000}
RULE = c02.RULE.replace('compared cell by cell', 'compared cell by cell (smallest depth; uncertainties of one of the soundings that has it)')
ASSUMPTIONS = c02.ASSUMPTIONS


def strategy(tier):
    return c02.cases(tier, 'shoalest')


def run_case(case, ctx):
    c02.run_case(case, ctx, 'shoalest')
