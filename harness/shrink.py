"""Shortens a script that shows a violation."""
import time

import batch
import driver


def _fails(scripts, prop, m, strict):
    """Which of the scripts still show the violation."""
    traces = []
    for n, s in enumerate(scripts):
        t = driver.run_script(dict(s, id='shrink-{}'.format(n)))
        if t['ev']:
            traces.append(t)
    if not traces:
        return []
    mms, _, _ = batch.check(traces, strict=strict)
    return sorted({int(x['tr'].split('-')[1]) for x in mms
                   if prop in x['ps'] and x['c'] == m['c'] and x['op'] == m['op']})


def shrink(script, prop, m, seconds, strict=False):
    end = time.time() + seconds
    best = dict(script, steps=script['steps'][:m['n']])
    try:
        if not _fails([best], prop, m, strict):
            return script
        size = max(1, len(best['steps']) // 4)
        while time.time() < end:
            steps = best['steps']
            # all candidates of a round are checked in one run of TLC
            cands = [dict(best, steps=steps[:i] + steps[i + size:])
                     for i in range(0, len(steps) - 1, size)]
            good = _fails(cands, prop, m, strict) if cands else []
            if good:
                best = min((cands[g] for g in good), key=lambda s: len(s['steps']))
                size = min(size, max(1, len(best['steps']) // 2))
            elif size == 1:
                break
            else:
                size //= 2
    except Exception:
        pass
    return best
