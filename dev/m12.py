"""Bugs in refactored forms: the walk written as a loop."""
ns = {'__name__': 'm11'}
exec(open('/verif/dev/m11.py').read(), ns)
W = next(x for x in ns['M'] if x[0] == 'tr-walk-loop')
def var(name, old, new):
    e = W[2] if isinstance(W[2], list) else [tuple(W[2:5])]
    (f, o, n) = e[0]
    assert old in n, name
    return (name, 'T04', f, o, n.replace(old, new, 1))
M = [
 var('wl-target', 'target_etas = new_etas;', ''),
 var('wl-ge', 'if new_etas >= right.get_min_range() {', 'if new_etas > right.get_min_range() {'),
 var('wl-diff', 'prev_sum.saturating_sub(sum_at_node)', 'prev_sum'),
 var('wl-right', 'current_sum = current_sum.checked_sub(right_sum)?;', ''),
 var('wl-leaf', 'if target_etas >= node.get_max_range() || !node.is_internal() {', 'if target_etas > node.get_max_range() || !node.is_internal() {'),
]
