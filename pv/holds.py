"""Confirmed instances: obligations of a rule that were checked by reading and hold on the reference tree.  A rule that
some models satisfy only approximately (asymptotic forms) is armed exactly for the confirmed instances."""
import json, os

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'holds')


def load(pid):
    p = os.path.join(DIR, pid + '.json')
    if os.path.exists(p):
        return set(json.load(open(p)))
    return None


def save(pid, keys):
    os.makedirs(DIR, exist_ok=True)
    json.dump(sorted(keys), open(os.path.join(DIR, pid + '.json'), 'w'), indent=0)
