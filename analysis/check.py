"""python3 check.py PROPERTY -- decide one property for /repo's current source"""
from common import *
import importlib

TABLE = {
    'C01': 'roundtrip', 'C02': 'roundtrip', 'C03': 'roundtrip', 'C04': 'roundtrip', 'C05': 'roundtrip',
    'C10': 'panics', 'C11': 'files',
    'C14': 'numbers_', 'C15': 'numbers_', 'C16': 'numbers_',
    'C17': 'derived',
    'C18': 'listing', 'C20': 'listing', 'C19': 'texts', 'C21': 'panics2',
    'C12': 'progress', 'C13': 'effects',
    'C06': 'reading', 'C07': 'reading', 'C08': 'reading', 'C09': 'reading',
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    t0 = time.time()
    prog = export()
    rep = Report(prop)
    mod = importlib.import_module(TABLE[prop])
    mod.run(rep, prog)
    return finish(rep, tier if tier in ('quick', 'thorough') else 'quick', t0)


if __name__ == '__main__':
    r = big_stack(main)
    sys.stdout.flush()
    sys.exit(r)
