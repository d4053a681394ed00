"""Development aid: systematic one-token mutants of every source file, in the format of dev/mut.py.
automut.py SEED COUNT > FILE ; each has an expected-id of '*' (anything); MISSED lines are reviewed by hand."""
import re, random, sys, os
SRC = '/repo/contracts/sumtree-orderbook/src/'
FILES = ['order.rs', 'sudo.rs', 'auth.rs', 'tick.rs', 'tick_math.rs', 'state.rs', 'query.rs', 'orderbook.rs', 'contract.rs', 'types/coin.rs', 'types/order.rs', 'types/orderbook.rs', 'types/tick.rs', 'sumtree/node.rs', 'sumtree/tree.rs', 'constants.rs']
SUBS = [(r'<=', '<'), (r'>=', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
        (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r'checked_add', 'checked_sub'), (r'checked_sub', 'checked_add'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
        (r'OrderDirection::Ask', 'OrderDirection::Bid'), (r'OrderDirection::Bid', 'OrderDirection::Ask'), (r'MIN_TICK', 'MAX_TICK'), (r'MAX_TICK', 'MIN_TICK'),
        (r'to_uint_floor', 'to_uint_ceil'), (r'to_uint_ceil', 'to_uint_floor'), (r'RoundingDirection::Down', 'RoundingDirection::Up'), (r'RoundingDirection::Up', 'RoundingDirection::Down'),
        (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'!(?=[a-z_])', ''), (r'\bif (?!let)(?=[a-z])', 'if !'), (r'\.left\b', '.right'), (r'\.right\b', '.left'),
        (r'Ascending', 'Descending'), (r'Descending', 'Ascending'), (r'inclusive', 'exclusive'), (r'\.opposite\(\)', ''), (r'get_expected_denom', 'get_opposite_denom'), (r'get_opposite_denom', 'get_expected_denom'),
        (r'next_bid_tick', 'next_ask_tick'), (r'next_ask_tick', 'next_bid_tick'), (r'checked_mul', 'checked_div'), (r'checked_div', 'checked_mul'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'effective_total_amount_swapped', 'cumulative_realized_cancels'), (r'cumulative_realized_cancels', 'last_tick_sync_etas'), (r'total_amount_of_liquidity', 'cumulative_total_value'),
        (r'cumulative_total_value', 'effective_total_amount_swapped'), (r'last_tick_sync_etas', 'effective_total_amount_swapped'), (r'order\.owner', 'sender'), (r'info\.sender', 'order.owner'), (r'placed_quantity', 'quantity'),
        (r'ADMIN_OFFER', 'MODERATOR_OFFER'), (r'\bADMIN\b', 'MODERATOR'), (r'\bMODERATOR\b', 'ADMIN'), (r'rotate_left', 'rotate_right'), (r'rotate_right', 'rotate_left'), (r'get_min_range', 'get_max_range'), (r'get_max_range', 'get_min_range'),
        (r'left_child', 'right_child'), (r'right_child', 'left_child'), (r'Some\(self\.key\)', 'self.parent'), (r'zero\(\)', 'one()'), (r'one\(\)', 'zero()'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'self\.parent', 'None'),
        (r'\bask_', 'bid_'), (r'\bbid_', 'ask_'), (r'REPLY_ID_\w+', '77'), (r'\btick_id\b', '(tick_id + 1)'), (r'base_denom', 'quote_denom'), (r'quote_denom', 'base_denom'), (r'unwrap_or_default\(\)', 'unwrap()')]

def body(t):
    i = t.find('#[cfg(test)]\nmod ')
    return t if i < 0 else t[:i]

def gen():
    out = []
    for f in FILES:
        t = open(SRC + f).read(); pos = 0; skip = 0
        lines = t.split('\n'); depth = None
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith('#[cfg(test)]'): skip = 1; continue
            if skip:
                # skip the item after #[cfg(test)]
                if skip == 1: skip = 2; ind = len(l) - len(l.lstrip())
                if skip == 2 and (s.endswith(';') or (l.startswith(' ' * ind + '}') )): skip = 0
                continue
            if s.startswith(('//', 'use ', '#', 'pub use', 'mod ', 'pub mod', 'pub fn', 'fn ', 'pub(crate) fn', 'impl', 'pub struct', 'pub enum', 'error:', 'let key =')) or 'format!' in s or not s: continue
            for a, b in SUBS:
                for m in re.finditer(a, l):
                    k = l.find('//')
                    if 0 <= k < m.start(): continue
                    new = l[:m.start()] + b + l[m.end():]
                    out.append((f, n, l, new))
            if re.match(r'^\s+[\w.():&*]+.*(save|remove|insert|push|append|rebalance|sync\w*|set_\w+)\(.*;$', l) and not s.startswith('let '):
                out.append((f, n, l, ''))
            if re.match(r'^\s+[\w.]+ = .*;$', l) and not s.startswith('let '): out.append((f, n, l, ''))
    return out

def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    ms = gen()
    random.Random(seed).shuffle(ms)
    M = []
    texts = {}
    for f, n, l, new in ms[:count]:
        t = open(SRC + f).read().split('\n')
        a = max(0, n - 4); b = min(len(t), n + 3)
        old = '\n'.join(t[a:b]); full = '\n'.join(t)
        while full.count(old) != 1 and (a > 0 or b < len(t)): a = max(0, a - 3); b = min(len(t), b + 3); old = '\n'.join(t[a:b])
        nn = '\n'.join(t[a:n] + ([new] if new else []) + t[n + 1:b])
        M.append(('%s:%d' % (f, n + 1), '*', f, old, nn, l.strip() + '  =>  ' + new.strip()))
    print('M = ' + repr(M)); print('#', len(ms), file=sys.stderr)
main()
