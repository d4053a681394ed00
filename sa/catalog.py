"""The properties: statement, anchors, how each is decided."""
S = 'contracts/sumtree-orderbook/src/'
P = []
NA = []
FILES = {'order': S + 'order.rs', 'tick': S + 'tick.rs', 'orderbook': S + 'orderbook.rs', 'sudo': S + 'sudo.rs', 'auth': S + 'auth.rs',
         'contract': S + 'contract.rs', 'query': S + 'query.rs', 'state': S + 'state.rs', 'msg': S + 'msg.rs', 'constants': S + 'constants.rs',
         'tick_math': S + 'tick_math.rs', 'tree': S + 'sumtree/tree.rs', 'node': S + 'sumtree/node.rs', 't_order': S + 'types/order.rs',
         't_orderbook': S + 'types/orderbook.rs', 't_tick': S + 'types/tick.rs', 't_coin': S + 'types/coin.rs', 't_reply': S + 'types/reply_id.rs', 'error': S + 'error.rs'}

VF = ('Every entry point named below is analysed from its compiled MIR by an interprocedural value-flow analysis: calls resolved and followed, branches '
      'joined into decision diagrams, loops summarised, storage modelled as a functional map per namespace.')
TRUST = ['the models of the library functions the contract calls (cosmwasm-std numbers and messages, cw-storage-plus containers, cw-utils payments, core/alloc collections) in sa/models.py',
         'rustc nightly MIR of the same source (overflow checks as in the dev profile; wrapping is excluded separately by F02)',
         'the chain executes a message atomically: an error return leaves no state change']

def p(id, title, statement, over, text, why, files, mech, technique, note, assume=(), state=None, floor=1, rules='', cost='≈20 s cold'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[FILES[f] for f in files],
                  mech=mech, technique=technique, note=note, assume=list(assume), state=state, floor=floor, rules=rules, cost=cost))
def na(id, title, statement, over, text, why, files, mech, reason, state=None):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[FILES[f] for f in files], mech=mech, reason=reason, state=state))

EXACT = 'Decides the stated clause for every input, sender, funds and stored state of the analysed entry points, assuming checked arithmetic does not overflow (an overflow aborts the call). '

# ------------------------------------------------------------------------------------------------ placing
p('P01', 'Placing an order takes exactly the stated payment',
  'A limit order is accepted only when the message carries exactly one coin, in the denomination that side of the book spends (quote for bids, base for asks), whose amount equals the order quantity. Placing an order never pays anything out.',
  ['inputs', 'histories'], 'every sender, funds list, order side, tick, quantity, bounty and stored book state',
  'The tests place a dozen hand-picked orders with one or two wrong-funds cases; nothing covers every funds list, side and state combination.',
  ['order', 't_orderbook'], [('payment check', 'order.rs place_limit (must_pay against get_expected_denom)')],
  'value-flow analysis: acceptance condition of the placement entry point',
  EXACT + 'cw_utils::must_pay is modelled: one coin, wanted denom, non-zero.', floor=20,
  rules='On both sides, with and without bounty, on a new or existing tick, first or later order: the acceptance condition implies single-coin payment of the expected denom and amount = quantity; the response has no messages.')
p('P02', 'An order is accepted exactly when it is valid',
  'A limit order is accepted if and only if its tick lies in the supported range (both ends included), its quantity is positive, its claim bounty, if given, is at most one percent, and it is paid correctly; no order is accepted before the book exists.',
  ['inputs', 'histories'], 'every placement message, funds list and stored state',
  'Boundary values (both tick ends, bounty of exactly 1 %, first order of a book) are sampled by single tests for one side each; the equivalence over all inputs is not.',
  ['order', 'constants'], [('validity checks', 'order.rs place_limit'), ('limits', 'constants.rs MIN_TICK, MAX_TICK')],
  'value-flow analysis: equivalence of acceptance condition and specification by decision diagrams',
  EXACT, floor=8, rules='The acceptance condition of every placement variant is equivalent to the stated predicate (case split over comparison atoms; no solver).')
p('P03', 'An accepted order is recorded exactly as requested',
  'An accepted order is stored under its tick and new id with the requested side, price tick, quantity, bounty and the block time, owned by the sender. No other order is written.',
  ['inputs', 'histories'], 'every accepted placement in every stored state',
  'Tests compare stored orders for a few inputs; they cannot show that no input records a wrong owner, bounty, quantity or time or touches another order.',
  ['order', 't_order'], [('order record', 'order.rs place_limit / LimitOrder::new')],
  'value-flow analysis: final storage term of the order map equals the specified record', EXACT, floor=60,
  rules='Final value of orders[(tick,id)] equals the specified record field by field; key set of the order map written is that one key.')
p('P04', 'Orders on a tick queue strictly in placement order',
  'A new order starts at the cumulative value ever placed on its side of the tick, and that cumulative value then grows by exactly the order quantity, so orders on one side of a tick occupy consecutive, non-overlapping queue intervals. Only the tick of the order changes.',
  ['inputs', 'histories'], 'every accepted placement in every stored state, hence every history of placements',
  'First-in-first-out fairness is about all interleavings of placements; tests check short fixed sequences.',
  ['order', 't_tick'], [('queue position', 'order.rs place_limit: etas = cumulative_total_value before, then += quantity')],
  'value-flow analysis: stored queue position and cumulative value terms', EXACT, floor=25,
  rules='orders[key].etas = previous cumulative value of the same side; new cumulative value = previous + quantity; no other tick key written.')
p('P05', 'Order ids are fresh and never reused',
  'Every accepted order gets the current value of a counter as its id, the counter advances by one, and no other operation moves the counter; the id reported in the response is the one stored.',
  ['inputs', 'histories'], 'every message of every kind in every stored state, hence all histories',
  'Uniqueness over all histories needs every other entry point to leave the counter alone; tests only see ids 0..n of short runs.',
  ['order', 'state'], [('id counter', 'state.rs new_order_id')],
  'value-flow analysis over all entry points: counter term and frame condition', EXACT, floor=25,
  rules='Placement: counter\' = counter + 1, stored and reported id = counter. All other execute/sudo/instantiate/migrate/reply entry points: the counter namespace is unchanged.')
# ------------------------------------------------------------------------------------------------ cancelling
p('N01', 'Only the owner can cancel, and only an order nobody has filled',
  'A cancel is accepted if and only if no funds are attached, the order exists, the sender is its owner and, after bringing the tick up to date, no part of the remaining order has been filled.',
  ['inputs', 'histories'], 'every sender, order and stored tick state',
  'Tests try one stranger and one partially filled order; the condition has to hold for every tick state and for stale ticks that need syncing first.',
  ['order', 'tick'], [('cancel guard', 'order.rs cancel_limit')],
  'value-flow analysis: acceptance condition equals the specification, with the sync as an opaque step (A03)', EXACT + 'Assumes a stored order never exceeds the stored liquidity of its side and tick (A01) and that the internal tree operations do not fail.', floor=16,
  rules='Exactly one sync of the order\'s tick with the stored swapped amounts of both sides; acceptance ⇔ owner ∧ no funds ∧ synced position ≤ order position.')
p('N02', 'A cancel refunds the remaining deposit once and removes the order',
  'An accepted cancel pays the owner exactly the remaining quantity in the denomination deposited, and nothing else, and the order no longer exists afterwards. No other order changes.',
  ['inputs', 'histories'], 'every accepted cancel in every stored state',
  'Double refund, wrong denomination or a surviving order depends on state; tests check the refund of a few fixed orders.',
  ['order'], [('refund and removal', 'order.rs cancel_limit')],
  'value-flow analysis: response message terms and final order map', EXACT, floor=8,
  rules='Message multiset = {pay(owner, deposit denom, quantity)}; final orders[key] absent; no other key written.')
p('N03', 'A cancelled amount is recorded at its queue position',
  'An accepted cancel enters exactly the cancelled quantity, at the queue position of the order, into the cancellation record of its own tick and side under a fresh record number, and stores the updated record.',
  ['inputs', 'histories'], 'every accepted cancel in every stored state',
  'If the leaf carried another amount, position, side or tick, later orders would be filled too early or too late, only visible after specific later swaps and syncs.',
  ['order', 'node', 'tree'], [('cancellation leaf', 'order.rs cancel_limit'), ('tree insertion', 'sumtree/node.rs insert')],
  'value-flow analysis: arguments of the tree insertion and state at that point', EXACT, floor=40,
  rules='One insertion; leaf value/position/tick/side/links as specified; root is the stored root of that side; node id is counter + 1 and persisted; updated root saved.')
# ------------------------------------------------------------------------------------------------ claiming
p('K01', 'A claim takes exactly the filled part of an order',
  'A claim is accepted if and only if part of the order has been filled and not yet claimed (after bringing the tick up to date). It reduces the order by exactly min(remaining quantity, filled amount), advances its position by the same amount, and removes the order exactly when nothing remains.',
  ['inputs', 'histories'], 'every order, tick state and price',
  'Tests cover a few fill levels; the exact amount must hold for every combination of position, cancels and swapped amount.',
  ['order', 'tick'], [('claim computation', 'order.rs claim_order')],
  'value-flow analysis: acceptance condition and final order map', EXACT + 'Assumes bounty and maker fee stay within their caps (P02, U07).', floor=50,
  rules='Acceptance ⇔ no funds ∧ sync ok ∧ synced position > order position; final order record = quantity − F, position + F, F = min(quantity, synced − position); removed iff quantity = F.')
p('K02', 'A claim pays owner, claimer bounty and maker fee as configured',
  'An accepted claim converts the filled amount at the tick price rounded down, pays the claimer the order\'s bounty share and the fee recipient the maker fee (each rounded down), and pays the owner all the rest, in the denomination opposite to the deposit; zero amounts are not sent. A claim that owes a maker fee is refused while no recipient is set.',
  ['inputs', 'histories', 'configurations'], 'every order, bounty, maker fee, claimer and tick state',
  'Tests fix a handful of bounty and fee values; rounding and routing must hold for all of them and for every pair of roles.',
  ['order', 'state'], [('payout split', 'order.rs claim_order')],
  'value-flow analysis: response payments equal the specified multiset', EXACT, floor=25,
  rules='Message multiset equals {owner: raw − ⌊raw·b⌋ − ⌊raw·f⌋, sender: ⌊raw·b⌋, recipient: ⌊raw·f⌋} without zero entries.')
p('K03', 'The payouts of a claim never exceed the value claimed',
  'Owner payout, bounty and maker fee of one claim add up to exactly the claimed value at the tick price rounded down, never more.',
  ['inputs', 'configurations'], 'every claim, bounty and fee',
  'Rounding three ways can create a unit out of nothing for particular values only.',
  ['order'], [('payout split', 'order.rs claim_order')],
  'value-flow analysis: linear normal form of the payment sum', EXACT, floor=8,
  rules='Sum of all payments in each case reduces to raw (or to zero when nothing is paid).')
p('K04', 'A batch claim does what the individual claims would do',
  'A batch claim carries no funds, holds at most 100 orders, is refused for no other reason while trading is active, and visits every listed order once, in order, with exactly the state changes, payouts and events that a claim of that order alone by the same sender would produce; the response carries all of them.',
  ['inputs', 'histories'], 'every list of orders and stored state (induction over the list)',
  'Equivalence for every list and every mixture of succeeding and failing orders cannot be sampled.',
  ['order'], [('batch loop', 'order.rs batch_claim_limits')],
  'value-flow analysis: loop-step summary compared with the single-claim summary', EXACT, floor=12,
  rules='The loop advances one list element per step; the step\'s storage, payouts and events are term-equal to the single claim of that element when it is accepted; no early exit.')
p('K05', 'A failing order in a batch leaves no trace',
  'When the claim of one order inside a batch fails, that order keeps its state, nothing is paid for it, and apart from bringing its tick up to date nothing else changes.',
  ['inputs', 'histories', 'fault_sequences'], 'every list of orders and every failure point of a single claim',
  'A batch swallows errors, so a write made before a late failure survives; the failing configuration (maker fee due, no recipient) never appears in the tests.',
  ['order'], [('error swallowed per element', 'order.rs batch_claim_limits'), ('order state written last', 'order.rs claim_order')],
  'value-flow analysis: loop-step summary under a failing element', EXACT + 'Found and fixed a genuine defect (see known_findings.txt).', floor=8,
  rules='Under "single claim fails", the loop step leaves orders, payouts and events unchanged, total and cumulative liquidity of ticks unchanged, and touches no namespace besides those a tick sync may touch.')
# ------------------------------------------------------------------------------------------------ swapping
LOOPNOTE = EXACT + 'The walk over the ticks is summarised as one arbitrary step plus its entry and exit states, so it covers any number of ticks. Uses tick_to_price as an opaque function of the tick (decided by M02).'
p('S01', 'A swap never yields less than the requested minimum',
  'An accepted swap sends the swapper, in the requested output denomination, exactly the total of its fills; that total is at least the requested minimum and is the amount reported in the response data.',
  ['inputs', 'histories'], 'every swap message, book and number of ticks walked',
  'Slippage protection must hold for every book; tests use small fixed books.',
  ['sudo', 'order'], [('minimum check and payment', 'sudo.rs swap_exact_amount_in / order.rs run_market_order')],
  'value-flow analysis with loop summaries: payment and report terms', LOOPNOTE, floor=12,
  rules='Acceptance implies min_out ≤ total of fills; first message = pay(swapper, out denom, total); data = {token_out_amount: total}.')
p('S02', 'Every fill trades at its tick\'s price, rounded in favour of the book',
  'On each tick a swap takes min(liquidity of the tick, value of the remaining input at the tick price rounded down) and charges for it the value at the same price rounded up. No positive fill is free, and nothing is filled on an empty tick.',
  ['inputs', 'histories'], 'every tick, price, liquidity and remaining input',
  'A rounding error in favour of the taker drains the book a unit at a time for particular values only.',
  ['order', 'tick_math'], [('fill computation', 'order.rs run_market_order_internal'), ('conversion', 'tick_math.rs amount_to_value')],
  'value-flow analysis: loop step terms equal the specified fill and cost', LOOPNOTE, floor=12,
  rules='Step of the output total and of the remaining input equal T + fill and Q − cost; cost = 0 with fill > 0 infeasible.')
p('S03', 'Unspent swap input is returned to the swapper',
  'The input a swap could not use is sent back to the swapper in the input denomination, exactly once; the contract keeps only what the fills cost and, if the walk stopped at a tick where the remainder is worth nothing, that remainder. A swap makes no other payment.',
  ['inputs', 'histories'], 'every swap and book',
  'Depends on where the walk stops and on rounding; tests check a few end states.',
  ['sudo', 'order'], [('refund', 'sudo.rs swap_exact_amount_in'), ('dust rule', 'order.rs run_market_order_internal')],
  'value-flow analysis: response messages equal the specified multiset', LOOPNOTE, floor=4,
  rules='Message multiset = {out to swapper, remaining input to swapper if non-zero}.')
p('S04', 'Swaps take the best prices first and never pass their bound',
  'A swap walks the stored ticks of the opposite side from the best price outward, in order, skipping none, from the best-price pointer up to the bound (both included), and stops only when what is left is worth nothing at the next tick or the range is exhausted.',
  ['inputs', 'histories'], 'every swap, bound and set of stored ticks',
  'Price priority over every book shape, including empty and sparse ticks and both ends of the range.',
  ['order'], [('tick walk', 'order.rs run_market_order_internal')],
  'value-flow analysis: iterator range term and loop exit conditions', LOOPNOTE, floor=20,
  rules='Iterated range term = tick_state.range(best..=bound) with the direction\'s order, no filter; early exit ⇒ nothing tradable at that tick.')
p('S05', 'A swap is accepted exactly when its input can be used within its bound',
  'A swap of a positive amount is accepted if and only if the fee is zero, the bound lies in the supported range and not on the wrong side of the best price, the result meets the minimum, and the input is used up, or, when the caller chose a bound short of the end of the range, the bound was reached.',
  ['inputs', 'histories'], 'every swap and book',
  'A swap that silently leaves input behind, or refuses a fillable one, shows up only for particular books.',
  ['order', 'sudo'], [('completion check', 'order.rs run_market_order_internal'), ('preconditions', 'order.rs run_market_order / sudo.rs')],
  'value-flow analysis: acceptance condition equivalent to the specification', LOOPNOTE + 'Assumes recorded liquidity covers the amount out (A01) and tick prices are positive.', floor=8,
  rules='Acceptance condition (exit states joined) ⇔ stated predicate.')
p('S06', 'Only the two tokens of the book can be swapped, one for the other, at zero fee',
  'Swaps and swap quotes are accepted only for one token of the book in and the other out, with the expected swap fee of zero; exact-amount-out swaps are refused; nothing can be swapped before the book exists or while the contract is paused.',
  ['inputs', 'histories', 'configurations'], 'every denomination pair, fee and state',
  'The denomination space is unbounded; tests try one wrong pair.',
  ['sudo', 't_orderbook', 'query'], [('pair check', 'types/orderbook.rs direction_from_pair'), ('fee check', 'sudo.rs')],
  'value-flow analysis: acceptance implies the pair and fee predicate', EXACT, floor=16,
  rules='Acceptance ⇒ (in,out) ∈ {(quote,base),(base,quote)} ∧ fee = 0; paused / no book / exact-out infeasible.')
p('S07', 'What is traded on a tick is recorded on that tick, and nowhere else',
  'Each fill reduces the liquidity of its tick and advances the tick\'s swapped amount by exactly the amount filled; every traded tick is recorded once, the side\'s total liquidity drops by the total, and nothing else but the best-price pointer changes.',
  ['inputs', 'histories'], 'every swap and book',
  'If the ledger and the payout differed by anything on any path, later claims would be paid from other users\' deposits.',
  ['order'], [('tick updates', 'order.rs run_market_order_internal / run_market_order')],
  'value-flow analysis: per-step storage delta and deferred-write replay', LOOPNOTE, floor=50,
  rules='One step records exactly (tick, old with liquidity − fill, swapped + fill); every filled tick recorded; direction_liquidity\' = old − total; namespaces touched ⊆ {tick_state, direction_liquidity, orderbook}.')
# ------------------------------------------------------------------------------------------------ book-keeping
p('A01', 'Total liquidity always equals the liquidity of the ticks',
  'Every operation changes the recorded total liquidity of a side by exactly the sum of the changes it makes to the liquidity of that side\'s ticks: placing adds the quantity to both, cancelling removes the remaining quantity from both, fills remove the filled amount from both, and nothing else moves either.',
  ['inputs', 'histories'], 'every operation in every state (an inductive invariant step)',
  'Total = Σ ticks is an invariant over all histories; a single unbalanced path breaks it silently and later rejects or over-reports.',
  ['state', 'order', 'tick'], [('totals', 'state.rs add/subtract_directional_liquidity'), ('tick liquidity', 'order.rs')],
  'value-flow analysis over all entry points: paired delta terms', LOOPNOTE, floor=100,
  rules='Per entry point the delta of direction_liquidity equals the delta of total_amount_of_liquidity of the ticks written; all other entry points leave both unchanged.')
p('A02', 'Queue counters only move forward, each for its own reason',
  'The cumulative placed value of a side of a tick grows only by placements, its swapped amount only by fills and by realised cancels, its realised cancels and sync marker only by a sync; none ever decreases, a fill never exceeds the liquidity present, and no sync moves the swapped amount past the cumulative placed value.',
  ['inputs', 'histories'], 'every operation in every state',
  'Monotonicity over all histories is what makes a queue position meaningful; a single decreasing path would let an order be filled twice.',
  ['tick', 'order', 't_tick'], [('sync', 'tick.rs sync_tick'), ('counters', 'types/tick.rs TickValues')],
  'value-flow analysis over all entry points: counter terms and inequality cases', LOOPNOTE, floor=150,
  rules='Per entry point each counter\'s final term equals its specified term; decrease / overtaking infeasible under acceptance.')
p('A03', 'A sync realises exactly the cancelled amounts the queue has reached',
  'Bringing a tick up to date advances each side\'s swapped amount by exactly the newly reached cancelled amount (looked up once, in that side\'s record, at the amount swapped), records it as realised and marks the tick as synced to that amount. It fails exactly when realised cancels would shrink or the position would pass everything placed, and changes nothing else.',
  ['inputs', 'histories'], 'every stored tick and cancellation record, including absent ones',
  'The sync runs lazily, on any later claim or cancel; its exact effect must hold for all combinations of pending fills and cancels.',
  ['tick', 'tree'], [('sync', 'tick.rs sync_tick'), ('lookup', 'sumtree/tree.rs get_prefix_sum'), ('root', 'sumtree/tree.rs get_or_init_root_node')],
  'value-flow analysis: acceptance condition and final tick terms with the prefix sum as an opaque function', EXACT + 'The numerical content of the prefix sum is out of reach here (not-applicable list).', floor=40,
  rules='One lookup per side behind; its arguments; final tick fields; frame; root creation limited to own tick; sides never share a root.')
p('A05', 'An order never changes what was placed',
  'Tick, id, side, owner, bounty, placed quantity and placement time of a stored order never change; its remaining quantity never grows; no operation on one order writes another; only placing, cancelling and claiming touch orders at all.',
  ['inputs', 'histories'], 'every operation in every state',
  'Covers every field on every path, including batches.',
  ['order', 't_order', 'state'], [('order writes', 'order.rs place_limit, cancel_limit, claim_order')],
  'value-flow analysis over all entry points: field terms and frame conditions', EXACT, floor=90,
  rules='Field-wise equality of the final record with the initial one; written keys; unchanged namespace for all other entry points.')
p('A06', 'The best-price pointers move only to better placements and traded ticks',
  'Placing an order moves the best-price pointer of its own side to the better of the pointer and the order\'s tick; a swap moves the pointer of the side it takes from to the last tick with liquidity it visited; nothing else changes the book record.',
  ['inputs', 'histories'], 'every operation in every state',
  'A wrong pointer hides liquidity from swaps or makes them skip better prices; it shows only after particular sequences.',
  ['order', 't_orderbook'], [('pointer updates', 'order.rs place_limit / run_market_order_internal')],
  'value-flow analysis: final book record terms and loop step of the pointer', LOOPNOTE, floor=80,
  rules='Final book record field by field; pointer step = visited tick when it holds liquidity, else unchanged.')
p('A07', 'The two sides of a tick do not affect each other',
  'Placing, cancelling or trading on one side leaves the other side\'s liquidity, queue counters, totals and cancellation records unchanged, apart from bringing the tick up to date on a cancel; swaps leave orders and cancellation records alone.',
  ['inputs', 'histories'], 'every operation in every state',
  'Cross-side leakage needs a tick with both sides used and a particular sequence.',
  ['order', 'tick', 'tree'], [('side selection', 'types/tick.rs get_values / set_values'), ('tree roots', 'sumtree/tree.rs TREE key')],
  'value-flow analysis: frame conditions per side', LOOPNOTE, floor=120,
  rules='All fields of the opposite side term-equal before and after; written keys restricted to own side.')
p('A08', 'Book amounts are always whole numbers of tokens',
  'Every amount stored in ticks, orders, totals and cancellation records is a whole number of token units whenever the amounts stored before were, although it is held in a fractional type; inside the cancellation records amounts are only added, subtracted and compared.',
  ['inputs', 'histories'], 'every operation in every state',
  'A fractional remainder appears only for prices that do not divide evenly and then accumulates.',
  ['order', 'node', 'tick_math'], [('amounts', 'order.rs'), ('tree arithmetic', 'sumtree/node.rs')],
  'integrality analysis of stored value terms, plus call-site rule over the tree code', LOOPNOTE, floor=300,
  rules='Every stored amount term is integral (inputs of integer types, floor/ceil results, sums, minima); no multiplication/division of amounts reachable from tree operations.')
# ------------------------------------------------------------------------------------------------ roles and configuration
p('U01', 'Admin operations are available to the admin, and to nobody else',
  'Offering or withdrawing adminship, renouncing it, offering the moderator role, and setting the maker fee or its recipient are accepted exactly when the sender is the stored admin and the argument is valid (a valid address, a fee of at most five percent). Without an admin they are refused to everyone.',
  ['inputs', 'histories'], 'every sender, argument and stored state',
  'Access control is a statement about all senders in all role configurations; tests try one stranger.',
  ['auth', 'orderbook'], [('admin guard', 'auth.rs ensure_is_admin')],
  'value-flow analysis: acceptance condition equivalent to the role predicate', EXACT, floor=12,
  rules='Acceptance ⇔ admin exists ∧ sender = admin ∧ argument valid, for each of the six operations in arbitrary storage.')
p('U02', 'Only admin, moderator and governance can pause or resume',
  'The activity switch can be set by message exactly by the stored admin or the stored moderator, to the requested position; governance can set it on an active contract.',
  ['inputs', 'histories'], 'every sender and role configuration', 'A union of two roles each of which may be absent; tests cover one combination.',
  ['auth', 'sudo'], [('switch guard', 'auth.rs ensure_is_admin_or_moderator'), ('switch', 'sudo.rs set_active')],
  'value-flow analysis: acceptance condition equivalent to the role predicate', EXACT, floor=6,
  rules='Acceptance ⇔ sender is admin ∨ moderator; final is_active = requested.')
p('U03', 'Roles change hands only by a two-step handover or by governance',
  'An offer of a role changes nothing but the offer; the role passes to the offered address exactly when that address claims it, which uses the offer up; the offered address can turn it down and the admin can withdraw an admin offer. Renouncing leaves no admin. Governance can appoint or remove the admin directly.',
  ['inputs', 'histories'], 'every sender, role and offer state',
  'The handover protocol must hold in every interleaving of offers, claims, rejections and governance actions.',
  ['auth', 'sudo'], [('offers and claims', 'auth.rs dispatch_*')],
  'value-flow analysis: acceptance conditions and final role cells', EXACT, floor=28,
  rules='Acceptance ⇔ sender = stored offer (claim/reject); final role and offer cells as specified.')
p('U04', 'An admin offer does not outlive the admin who made it',
  'Whenever the stored admin changes (claim, renouncement, governance appointment or removal) no admin offer remains, so that an earlier admin\'s offer can never be claimed later.',
  ['inputs', 'histories'], 'every operation that changes the admin, in every state',
  'The takeover needs offer, replacement by governance, then claim: a three-step history no test contains.',
  ['auth', 'sudo'], [('role cells', 'auth.rs update_admin / remove_admin')],
  'value-flow analysis over all entry points: joint final value of the admin and offer cells', EXACT + 'Found and fixed a genuine defect (see known_findings.txt).', floor=4,
  rules='For every entry point that writes admin: admin changed ⇒ admin_offer absent.')
p('U05', 'Roles and configuration change only through their own messages',
  'Setting the fee recipient makes the named address the recipient; admin, moderator, pending offers, the activity switch, the maker fee and its recipient are changed by no message other than the ones made for it; administrative messages move no tokens and leave the book alone.',
  ['inputs', 'histories'], 'every message of every kind in every state',
  'A frame property over all messages; tests look at a cell after one message.',
  ['auth', 'sudo', 'state', 'contract'], [('configuration cells', 'auth.rs, state.rs')],
  'value-flow analysis over all entry points: frame conditions (writer table)', EXACT, floor=180,
  rules='Final content of each configuration namespace equals the initial one for every entry point outside its writer table.')
p('U06', 'While paused, nothing but role messages is accepted',
  'While the contract is switched off every trading message and every governance message is refused, and role messages are decided as if it were on; a contract whose switch was never set is on.',
  ['inputs', 'histories'], 'every message and state', 'Tests try a few messages while paused.',
  ['contract', 'sudo'], [('switch check', 'contract.rs execute, sudo.rs sudo / ensure_is_active')],
  'value-flow analysis: acceptance condition under the switch', EXACT, floor=40,
  rules='Acceptance under is_active = false infeasible for every non-role message; role acceptance independent of the switch; unset ≡ on.')
p('U07', 'The maker fee never exceeds five percent',
  'No message can store a maker fee above five percent, and setting a fee stores exactly the requested value.',
  ['inputs', 'histories'], 'every message in every state', 'Boundary and all writers, for all states.',
  ['orderbook', 'auth', 'constants'], [('fee cap', 'orderbook.rs set_maker_fee')],
  'value-flow analysis over all entry points that write the fee', EXACT, floor=4,
  rules='Every write to maker_fee in every entry point stores a value ≤ 5 % under acceptance.')
p('U08', 'An address is validated before it is given a role or the fees',
  'Every address stored as admin, moderator, pending offer or fee recipient was validated in the same message, is the sender, or was already stored.',
  ['inputs', 'histories'], 'every message in every state', 'Tests use a mock that accepts nearly everything.',
  ['auth', 'orderbook', 'contract'], [('validation', 'auth.rs offer_admin, update_admin, offer_moderator, update_moderator')],
  'value-flow analysis: provenance of stored addresses', EXACT, floor=10,
  rules='Acceptance ⇒ addr_validate succeeded on the stored term, for every write of a role or recipient cell.')
# ------------------------------------------------------------------------------------------------ queries
p('Q01', 'Queries change nothing, and answer the same whether paused or not',
  'No query writes to storage; apart from the query for the activity switch itself none depends on it, and none depends on the block, the clock or the caller.',
  ['inputs', 'histories'], 'every query in every stored state', 'A write or a dependency shows only in some state; tests query an active book in one block.',
  ['query', 'contract', 'order'], [('query dispatch', 'contract.rs query'), ('dry run of a market order', 'order.rs run_market_order_internal')],
  'effect analysis (no storage write reachable from a query) and dependency analysis of answer terms', EXACT, floor=50,
  rules='No save/remove effect reachable from any query variant; answer and acceptance terms contain neither the activity switch nor the environment.')
p('Q02', 'A quote is what the swap would pay',
  'The quoted output for an input is computed by exactly the walk a swap performs: same ticks in the same order within the full price range, same fills at the same prices with the same rounding, refused in the same cases (apart from funds and minimum output), and denominated in the requested token. Both spellings of the query agree.',
  ['inputs', 'histories'], 'every input amount, direction and stored book', 'Equality of two computations over all books; tests compare a few fixed books.',
  ['query', 'order'], [('quote', 'query.rs calc_out_amount_given_in')],
  'value-flow analysis: the walk, fill and acceptance rules of swaps (S02, S04, S05) applied to the quote entry points', LOOPNOTE, floor=60,
  rules='Range, order, fill step, remaining input, stop condition and acceptance of the quote loop equal the specification that swaps are checked against; quote = loop total.')
p('Q03', 'Every query answers with the type it declares',
  'The type each query serialises is the response type declared for it in the message schema, so generated clients can decode every answer.',
  ['inputs'], 'every query message', 'Tests call the query functions and never compare against the published schema.',
  ['msg', 'contract', 'query'], [('declared types', 'msg.rs #[returns(..)]'), ('serialised types', 'contract.rs query')],
  'type query over MIR: type argument of the serialisation reached per query variant against the derived schema table', 'Decides the type identity for every variant. Found and fixed a genuine defect (GetMakerFee declared a record but answers a number).', floor=40,
  rules='For every query variant: the set of serialised types reachable under acceptance = {declared type}.')
p('Q04', 'Listings return exactly the requested window, in order',
  'Listing ticks, the orders of a tick, or the orders of an owner returns the stored entries whose key lies between the given start and end (both included), in ascending order, cut to the given limit (no limit for ticks and orders of a tick, 100 for orders of an owner by default); the count is that of the window for a tick and of all orders for an owner. Listings are never refused.',
  ['inputs', 'histories'], 'every window, limit and stored state', 'Pagination mistakes show at the borders of particular windows.',
  ['query', 'state', 't_order'], [('tick listing', 'query.rs all_ticks'), ('order listings', 'query.rs orders_by_owner / orders_by_tick, state.rs get_orders_by_owner')],
  'value-flow analysis: answer term equals the specified bounded range, map and prefix', EXACT + 'Ranges, bounds and take are modelled by the documented container semantics.', floor=12,
  rules='Answer = take(map(range(store, prefix, Inclusive start, Inclusive end, Ascending)), limit or default); owner index key function evaluates to order.owner.')
p('Q05', 'The spot price is the best price on the opposite side',
  'For base against quote the spot price is the price of the best bid tick; for quote against base it is the inverse of the price of the best ask tick; any other pair, and equal tokens, are refused.',
  ['inputs', 'histories'], 'every pair and stored book', 'Direction and inversion mistakes cancel out at price one, where most tests sit.',
  ['query', 't_orderbook'], [('spot price', 'query.rs spot_price')],
  'value-flow analysis: answer term and acceptance condition', EXACT + 'tick_to_price is opaque.', floor=5,
  rules='Answer = tick_to_price(next_bid_tick) resp. 1/tick_to_price(next_ask_tick); acceptance ⇔ pair of the book ∧ price defined.')
p('Q06', 'Book queries report the stored book, liquidity and ticks',
  'The liquidity query reports the stored liquidity of each side in that side\'s token (base for asks, quote for bids), rounded down; the book, its tokens and the requested ticks are reported as stored, ticks in the requested order, refused exactly when one does not exist.',
  ['inputs', 'histories'], 'every stored state and list of ticks', 'Swapped sides or a skipped tick show only in asymmetric states.',
  ['query', 'state', 't_orderbook'], [('liquidity', 'query.rs total_pool_liquidity'), ('ticks', 'query.rs ticks_by_id')],
  'value-flow analysis: answer terms equal the stored contents', EXACT, floor=8,
  rules='Answer terms equal the specified function of the stored content; list queries: element-wise map, acceptance ⇔ all ticks exist.')
p('Q07', 'Role, fee and status queries report what is stored',
  'The queries for admin, moderator, their pending offers, maker fee (zero if unset) and activity (on if unset) report the stored values and are never refused; swaps are reported to carry no fee; the unsupported inverse quote is refused.',
  ['inputs', 'histories'], 'every stored state', 'Tests query one configuration.',
  ['query', 'auth', 'orderbook'], [('role queries', 'auth.rs query_*'), ('fee', 'query.rs / contract.rs')],
  'value-flow analysis: answer terms equal the stored contents', EXACT, floor=15,
  rules='Answer = stored cell or its documented default, acceptance ⇔ true.')
p('Q08', 'Unrealised cancels are reported as recorded in the tree',
  'For each requested tick and side the reported amount is what the cancellation tree holds up to the amount swapped so far, beyond what was already realised (never negative), zero without a tree; sides are not confused; refused exactly when a tick does not exist.',
  ['inputs', 'histories'], 'every stored state and list of ticks', 'Needs a tick with pending cancels on one side only.',
  ['query', 'tree'], [('unrealised cancels', 'query.rs get_unrealized_cancels')],
  'value-flow analysis: answer term, with the prefix sum opaque', EXACT + 'get_prefix_sum is opaque here.', floor=2,
  rules='Per side: prefix_sum(root of (tick, side), swapped, realised) − realised, saturating; 0 without root.')
# ------------------------------------------------------------------------------------------------ responses and life cycle
p('E01', 'Responses and events report what actually happened',
  'The attributes and events of placing, cancelling, claiming, batch claiming and swapping report the true owner, tick, order, side, tokens and amounts: remaining and placed quantity, the amount the owner receives, whether the order is fully claimed, the amount paid out by a swap. Each is reported exactly once and nothing else is reported.',
  ['inputs', 'histories'], 'every accepted trading message in every state', 'Indexers rely on every attribute for every order; tests compare a few complete responses.',
  ['order', 'contract', 'sudo'], [('responses', 'order.rs'), ('claim event', 'order.rs claim_limit')],
  'value-flow analysis: attribute terms of the response equal the specified terms', EXACT, floor=250,
  rules='Every wanted attribute is present exactly once with the specified value term under acceptance, and no other key occurs.')
p('I01', 'A new book is created only for two existing tokens, and starts empty',
  'Instantiation is accepted exactly when the two tokens differ and both have supply (and the built-in addresses are valid); the new book has no ticks, orders or liquidity, best prices at the ends of the range, the built-in admin and moderator, no maker fee and the built-in fee recipient, and records its name and version.',
  ['inputs'], 'every instantiation message and token supply', 'Tests instantiate with a handful of tokens.',
  ['contract', 'orderbook', 'auth', 'constants'], [('instantiation', 'contract.rs instantiate')],
  'value-flow analysis: acceptance condition and final storage terms', EXACT, floor=20,
  rules='Acceptance equivalence; final cells; no other namespace written.')
p('I02', 'A migration to this code keeps every stored entry',
  'Migrating a running contract to this code is accepted and leaves balances, orders, ticks, roles and configuration untouched.',
  ['histories'], 'every stored state', 'No test migrates a used book.', ['contract'], [('migration', 'contract.rs migrate')],
  'value-flow analysis: frame condition', EXACT, floor=15, rules='No namespace is written on migrate; no messages.')
p('I03', 'Stored data stays under the same keys and types',
  'Every store keeps its namespace, key type and value type, no two stores share a namespace, and the owner indexes of orders are built from owner and (tick, owner), so state written by the deployed version is found again.',
  ['histories'], 'all stored states written by an earlier version', 'Unit tests start from an empty store and cannot notice a moved or colliding namespace.',
  ['state', 'auth', 'tree', 'node'], [('stores', 'state.rs, auth.rs, sumtree/')],
  'type and constant query over MIR: evaluated store constants, types and index key functions against the frozen layout', EXACT, floor=50,
  rules='Table namespace→(container, key type, value type); index closures evaluate to the frozen key terms; no raw storage access reachable.')
p('I04', 'Messages, answers and stored records keep their JSON form',
  'Existing messages keep their names and fields, answers keep the fields clients read, and stored records keep exactly their fields and types, so existing clients and existing state remain readable.',
  ['inputs', 'histories'], 'all messages of existing clients and all stored records', 'Tests construct Rust values and round-trip through the same code, so a rename is invisible to them.',
  ['msg', 't_order', 't_orderbook', 't_tick', 'node'], [('message types', 'msg.rs'), ('records', 'types/*.rs, sumtree/node.rs')],
  'query over the MIR of the derived serialisation code: names and field types against a frozen table', 'Decides name and type compatibility (frozen table sa/wire.json taken from the pinned tree); additions that existing clients cannot notice are allowed.', floor=60,
  rules='Names accepted by every derived deserialiser and written by every derived serialiser, and field types, against the frozen table: equality for stored records and message fields, inclusion for answers and message variants.')
p('I05', 'Execution is deterministic',
  'Results depend only on the stored state, the message, its sender and funds; the block is used for nothing but the placing time recorded in an order, and nothing reachable uses floating point, hash iteration order, clocks, threads or randomness, so all validators agree.',
  ['inputs', 'schedules'], 'every message in every block on every machine', 'A test runs on one machine in one block.',
  ['contract', 'order', 'sudo', 'tick_math'], [('entry points', 'contract.rs'), ('placing time', 'order.rs place_limit')],
  'dependency analysis of terms plus effect lint over every function reachable from an entry point', EXACT, floor=150,
  rules='No env.block in acceptance, response or stored terms except LimitOrder.placed_at; no local of float/hash/clock/interior-mutable type and no call into std time/env/fs/net/thread in any reachable function.')
p('I06', 'The chain can call every entry point, and runs the code that was checked',
  'Built for the chain, the contract exports instantiate, execute, query, migrate, reply and sudo, each running the function of that name, and nothing else; no code is compiled only for the chain or only for other targets.',
  ['inputs'], 'every entry point of the contract as built for the chain',
  'Tests call the Rust functions directly on the host, so a missing export, or code that exists on one target only, is invisible to them.',
  ['contract', 'sudo'], [('exports', 'entry_point attributes in contract.rs, sudo.rs'), ('conditional compilation', 'all files')],
  'query over the macro-expanded, conditionally compiled source for the chain target and for the host', 'Decides the exports and the equality of the two expansions of every function; the standard wrappers do_* of cosmwasm-std are trusted.', floor=120,
  rules='Expansion with target_arch = wasm32: one export per entry point, calling do_<name> on the analysed function with its own arguments; line-wise equality of the two expansions per function, exports and schema listing aside.')
# ------------------------------------------------------------------------------------------------ cancellation trees
TREENOTE = ('Decides one step for every shape: the node at hand is fully symbolic, its subtrees are arbitrary (height known, contents not), intervals are related only by the order '
            'constraints of a well-formed tree; by induction over the height the clause holds for trees of any size. Assumes the tree was well formed before (non-empty disjoint intervals in order, heights off by at most one).')
p('T01', 'A cancellation is filed at its queue position, without losing another',
  'Entering a cancelled interval into a tick\'s record always succeeds for an interval disjoint from those recorded, places it between its neighbours in queue order, stores it as given under fresh node numbers, and keeps every record already there, unchanged and in order.',
  ['inputs', 'histories'], 'every tree shape met by one insertion step, every relative position of the new interval',
  'Loss or misplacement needs a particular shape and position; the tests insert short hand-picked sequences.',
  ['node', 'tree'], [('insertion', 'sumtree/node.rs insert')],
  'symbolic-heap value-flow analysis of one insertion step with order-constraint closure', TREENOTE, floor=200,
  rules='For each child configuration {none, record, subtree}² and each placement of the new interval: final links form the frontier with the new interval inserted in order; parents, keys, tick and side correct; other records unchanged; made nodes carry their sums; the node is brought up to date once, last.')
p('T02', 'Rebalancing keeps every record, in order, and the tree linked',
  'Restoring the balance after an insertion never fails, keeps exactly the records that were there, unchanged and in queue order, leaves child and parent links and the root pointer consistent, and changes nothing outside the rotated part.',
  ['inputs', 'histories'], 'every balance situation an insertion can create, at the root or below, on both sides',
  'A dangling parent or root pointer after a rare double rotation loses cancelled amounts only at a later insertion.',
  ['node'], [('rotations', 'sumtree/node.rs rebalance, rotate_left, rotate_right')],
  'symbolic-heap analysis of rebalancing over all imbalance situations', TREENOTE, floor=500,
  rules='For each situation (balanced; single and double rotations left and right; subtree heights 0–4; node is root, left child, right child): in-order frontier unchanged, parent of every reachable node correct, root pointer names the new root, node in hand equals stored node, no other key written.')
p('T03', 'Every node carries the sum, range and height of what is below it',
  'After an insertion or rotation each touched internal node carries exactly the sum of the recorded amounts below it, the lowest and highest queue position covered, and its height.',
  ['inputs', 'histories'], 'every balance situation an insertion can create',
  'A stale sum after one kind of rotation silently shifts what later orders receive.',
  ['node'], [('sums', 'sumtree/node.rs sync_range_and_value')],
  'symbolic-heap analysis: stored sums against children, with order constraints', TREENOTE, floor=100,
  rules='For each situation of T02, for every expanded node of the final tree: accumulator = Σ children, range = (min, max) of children, weight = 1 + max of children.')
p('T05', 'Cancellation trees stay balanced',
  'After every insertion step no branch of a rebalanced node is more than one level deeper than its sibling, and a balanced node is left as it is, so lookups stay logarithmic and cannot be driven out of gas by many cancels.',
  ['inputs', 'histories'], 'every balance situation an insertion can create',
  'A rotation chosen the wrong way leaves a list-shaped tree, invisible to value tests.',
  ['node'], [('balance', 'sumtree/node.rs rebalance')],
  'symbolic-heap analysis of node heights after rebalancing', TREENOTE, floor=100,
  rules='For each situation of T02: heights of the children of every expanded node differ by at most one; balanced situations keep their shape.')
p('T06', 'Every tick side has its own tree and node numbers are never reused',
  'The root looked up for a tick and side is the one stored for exactly that tick and side; when there is none, an empty one with a fresh node number is started and pointed to; node numbers within a tick count up by one from one.',
  ['inputs', 'histories'], 'every tick, side and counter value',
  'A shared root or reused number merges two trees only after both sides of a tick saw cancels.',
  ['tree', 'node'], [('roots', 'sumtree/tree.rs get_or_init_root_node'), ('numbers', 'sumtree/node.rs generate_node_id')],
  'value-flow analysis: root lookup and counter terms', EXACT, floor=20,
  rules='Root term and pointer per side with and without a stored tree; new root empty; counter term +1; other pointers and nodes untouched.')
# ------------------------------------------------------------------------------------------------ prices
p('M01', 'Amounts convert at the tick price with the stated rounding',
  'Converting an amount divides by the price for bids and multiplies for asks, rounded down or up to a whole token exactly as asked; zero stays zero; no amount or positive price is refused unless the result does not fit.',
  ['inputs'], 'every amount, price, side and rounding direction',
  'Rounding is wrong only for values that do not divide evenly; tests try round ones.',
  ['tick_math'], [('conversion', 'tick_math.rs amount_to_value / multiply_by_price / divide_by_price')],
  'value-flow analysis: returned term equals floor/ceil of the exact quotient or product', EXACT + 'Library multiplication and division by ratio are modelled exactly with rounding down at 18 digits where the library does so.', floor=8,
  rules='4 variants: returned term = round(amount / price) or round(amount · price); acceptance ⇔ in range.')
p('M02', 'The price of every supported tick is the documented one',
  'Every tick in the supported range has a positive, exactly representable price equal to the documented geometric spacing (one decade per 9 000 000 ticks, linear within a decade, price one at tick zero); prices strictly increase with the tick; no other tick has a price.',
  ['inputs'], 'all 290 402 824 supported ticks and all other 64-bit ticks',
  'Tests probe a few dozen ticks; the borders of decades and both ends are where the exponent arithmetic goes wrong.',
  ['tick_math', 'constants'], [('tick price', 'tick_math.rs tick_to_price'), ('range', 'constants.rs')],
  'abstract interpretation: exact piecewise-linear interval evaluation of the price function over all 64-bit ticks', 'Decides the clause for every tick: the value-flow term of the function is split into intervals of the tick on which every operation (division, power, rounding) is exactly linear; the result is compared with the documented function piece by piece.', floor=250,
  rules='The interval partition covers i64; per piece: accepted ⇔ in range, exact rational line equals the specification at both ends, positive, slope positive, jumps upward at borders, no truncated cast.')
# ------------------------------------------------------------------------------------------------ failures
p('F01', 'A payment that fails undoes the operation that made it',
  'Whenever a payment sent by placing, cancelling, claiming or swapping fails, the whole operation fails with it; when it goes through, hearing back about it changes nothing and sends nothing. No payment is given a gas limit of its own that could make it fail.',
  ['inputs', 'fault_sequences'], 'every payment of every operation and every failure of it',
  'Unit tests never execute submessages, so the reply path is only met on a chain.',
  ['contract', 'order', 't_reply', 'sudo'], [('reply handling', 'contract.rs reply'), ('reply ids', 'types/reply_id.rs, order.rs, sudo.rs')],
  'typestate-like protocol analysis: reply ids and modes of all submessages against the reply entry point', EXACT, floor=30,
  rules='Every submessage of every entry point, loop steps included: id and mode are constant and there is no gas limit; for the failure reports it asks for, reply(id, error) is infeasible to accept; for success reports, reply(id, ok) is accepted without writes or messages; a mode that ignores failures is only one that the chain turns into an abort.')
p('F02', 'Amounts are never wrapped, clamped or truncated',
  'No reachable code adds, subtracts or multiplies amounts with wrapping or saturating-upward arithmetic, uses unchecked integer operators, or narrows an amount; ids, ticks and exponents keep their value when converted. A result out of range makes the call fail; no default or cap takes its place.',
  ['inputs', 'histories'], 'every function reachable from an entry point',
  'Wrapping appears only near 2^128, which tests never approach.',
  ['order', 'tick', 'tick_math', 'node', 'contract'], [('arithmetic', 'all functions reachable from the entry points')],
  'effect lint over MIR of every reachable function plus interval analysis of conversions', 'Decides absence of the listed operations in all reachable functions; conversions are proved to fit by interval analysis over all ticks. Release builds keep overflow checks (workspace profile).', floor=120,
  rules='Call-graph closure of the entry points: no wrapping/overflowing/unchecked/saturating-up calls, no narrowing cast of 128-bit values, no float casts, no unchecked integer operator; cast operands proved in range by piecewise intervals.')
p('T04', 'A lookup counts exactly the cancelled amounts the queue has reached',
  'Looking up a queue position in a cancellation tree counts a recorded cancellation if and only if the position, advanced by the cancelled amounts recorded before it that were not realised yet, has reached its start. A lookup never fails and changes nothing.',
  ['inputs', 'histories'], 'every tree, position and amount realised before',
  'The lookup skips whole subtrees by their ranges; a wrong comparison shows only for particular gaps and partial earlier realisations.',
  ['tree'], [('lookup', 'sumtree/tree.rs get_prefix_sum'), ('walk', 'sumtree/tree.rs prefix_sum_walk')],
  'symbolic-heap value-flow analysis: one step of the walk against the recursive specification', TREENOTE + ' If the walk is not a recursive function over (node, sum, position, realised), complete trees of up to five records are decided instead.', floor=150,
  rules='For root and inner steps, records and subtrees as children, earlier realisation before / inside / beyond the left child: the returned sum (further walk as hypothesis) equals the specified case distinction in every case the order constraints admit; no failing case; no write.')
# ------------------------------------------------------------------------------------------------ the whole book
p('B01', 'The book can always pay out what it owes',
  'Every token that leaves is covered: a cancel returns no more than the unfilled rest of the deposit, a swap pays out exactly what it takes off the ticks it trades with and charges for it at least the tick price, a claim pays no more than the filled amount at that same price rounded down, cancelled amounts are never counted as filled, and nothing else pays out. So no sequence of operations can leave a trader unpaid or take tokens belonging to others.',
  ['inputs', 'histories'], 'every sequence of messages (induction over operations)',
  'Insolvency is a global fact about histories: a unit lost per fill, or an order paid twice, shows only when the last trader claims.',
  ['order', 'tick', 'sudo', 'tick_math', 'tree', 'node'], [('payouts', 'order.rs cancel_limit, claim_order; sudo.rs swaps'), ('conversion', 'tick_math.rs amount_to_value'), ('accounting', 'tick.rs sync_tick, sumtree/')],
  'value-flow analysis: per-operation ledger rules assembled into an inductive argument', 'The invariant is assembled from the per-operation clauses listed in the rules; each is decided for every input and state. ' + TREENOTE, floor=25,
  rules='Own rules: no messages outside cancel, claim, swap; Δ recorded liquidity = deposit / refund. Further obligations: the rules of P01, N01–N03, K01–K05, S01–S03, S07, A01–A03, M01, T01–T04, T06 (what each operation pays and records, and that queue position, conversion and cancellation records are exact).')

p('H01', 'Orders on a tick are filled strictly first come, first served',
  'The proceeds of every fill on a side of a tick go to the oldest unfilled, uncancelled amount: orders occupy consecutive queue intervals in placement order, the front of the queue moves by exactly what is filled plus what cancelled orders vacate, a claim takes only what lies behind the front, and no operation moves the end of an interval or lets a younger order overtake an older one.',
  ['histories'], 'every sequence of placements, fills, cancels, syncs and claims on a tick (induction over operations)',
  'Fairness between traders is a relation over whole histories; tests replay a few fixed sequences of at most some orders.',
  ['order', 'tick', 'tree', 'node'], [('intervals', 'order.rs place_limit, claim_order'), ('front of the queue', 'tick.rs sync_tick')],
  'value-flow analysis: per-operation interval rules assembled into an inductive argument', EXACT + TREENOTE, floor=25,
  rules='Own rules: position + quantity of an order is invariant under claims and equals the end of the queue at placement; a claim never passes the synced front. Further obligations: the rules of P04 (intervals), A02 (front and end move only for their own reason), A03/T04/T06 (cancelled amounts reached), K01 (what a claim takes), A05 (frame).')
p('R01', 'A refusal names its cause',
  'When a message is refused for exactly one reason (tick out of range, quantity, bounty, payment, ownership, a filled order, nothing to claim, an unknown order, an oversized batch, token pair, fee, role, pause or a failed payment), the error returned is the documented one for that reason and carries the offending values; a failed payment is reported under the id of its kind (refund, claim, claim bounty, maker fee, swap output).',
  ['inputs', 'histories'], 'every refusable message in every state in which only one cause holds',
  'Front ends and keepers act on the error (retry, skip, report); tests provoke each error in one configuration.',
  ['order', 'sudo', 'auth', 'contract', 'error'], [('error results', 'order.rs, sudo.rs, auth.rs'), ('error type', 'error.rs ContractError')],
  'value-flow analysis: the error term of each call under each single cause', EXACT + 'Causes are compared one at a time, so the order of validations is free.', floor=90,
  rules='Under cause i and not any other cause, every feasible leaf of the returned error is the documented variant with the specified field values; the payments of cancels, claims and swaps, by case, carry the id of their kind.')
p('E02', 'Administrative responses report what was set',
  'The response of every role, fee and pause message names the operation and the value that was set, once each, and contains no event or data; the response that creates a book names its two tokens.',
  ['inputs'], 'every administrative message with any argument',
  'Monitoring of governance actions relies on these attributes; most administrative responses are not tested at all.',
  ['auth', 'sudo', 'contract'], [('responses', 'auth.rs, sudo.rs, contract.rs')],
  'value-flow analysis: attribute terms of the response equal the specified terms', EXACT, floor=60,
  rules='Every wanted attribute is present exactly once with the specified value term under acceptance, and no other key, event or data occurs.')
p('F03', 'A message is answered or refused, never aborted',
  'No message or query, whatever its content and the stored state, runs into a panic: absent entries, empty lists, zero prices and failed conversions are handled or refused with an error. Excepted are arithmetic outside the integer ranges and the exact-amount-out swap and quote, which the contract does not implement.',
  ['inputs', 'histories'], 'every message, query, sudo call and reply in every state',
  'A panic instead of an error takes a whole batch or a whole query page down with it; the trigger is usually a state no test builds.',
  ['order', 'tick', 'tick_math', 'query', 'sudo', 'auth', 'contract', 'orderbook'], [('unwraps and indexing', 'query.rs spot_price, orderbook.rs create_orderbook, order.rs')],
  'reachability analysis of trap sites over the value-flow results; interval analysis for tick_to_price', EXACT + 'Panics inside tree insertion, rotation and lookup would show as refused operations in T01-T04. Prices are taken as positive (M02).', floor=70,
  rules='For each unwrap, expect, index, division and assertion reached, its failing condition conjoined with the path condition has no feasible case.')

p('F04', 'A step that fails refuses the whole message',
  'When bringing a tick up to date, recording a cancel in its tree, filling against the book or any other internal step of a message or query fails, the message is refused: it never goes on, as if the step had succeeded, with what the step had written before it failed. Only a batch claim passes over claims that fail.',
  ['inputs', 'histories', 'fault_sequences'], 'every message, query, sudo call and internal operation, every step and every way it can fail',
  'Steps fail only on overflow or on states no test builds; until then an ignored result looks like a checked one.',
  ['order', 'tick', 'tree', 'query', 'contract', 'sudo'], [('synchronisation', 'order.rs cancel_limit, claim_order, query.rs'), ('insertion', 'order.rs cancel_limit, sumtree/node.rs insert'), ('fills', 'order.rs run_market_order')],
  'effect analysis: acceptance conjoined with the failure of each summarised step', EXACT + 'Reading and writing storage is taken as never failing; steps that are executed in place (small helpers) are covered by the properties of their callers. What a batch claim does with failed claims is K04 and K05.', floor=80,
  rules='For every call of a summarised function returning a Result, in every run: path condition, acceptance of the caller and failure of the call have no common case.')

# ------------------------------------------------------------------------------------------------ out of reach
p('G02', 'Placing costs constant, cancels and claims logarithmic, swaps constant per tick',
  'As the README promises: placing an order touches a fixed number of stored entries however full the book is, a swap a fixed number per tick it walks, and a cancel or claim follows a single branch of the balanced cancellation tree. Nobody can price others out of these operations by filling the book with orders, ticks or cancels.',
  ['inputs', 'histories'], 'every message and reply, every size of the book',
  'Tests run on books of a few entries without a gas meter, where a full walk costs nothing.',
  ['order', 'tick', 'tree', 'node', 'state'], [('recursion', 'sumtree/tree.rs prefix_sum_walk, sumtree/node.rs insert'), ('walks', 'order.rs run_market_order_internal'), ('records', 'state.rs')],
  'call-graph and control-flow query over the MIR; storage walks and tree accesses counted in the effects of every message', 'Function values passed along count as called; reading or writing one entry is taken as constant; how many ticks a swap walks is not bounded (G01).', floor=250,
  rules='No range/keys/prefix walk reachable from execute, reply or instantiate; walks reachable from sudo are over ticks, at most one per message; no recursion and no tree access reachable from a swap or a placement, no storage loop in a placement; every recursive function enters its recursion at most once per control-flow path and never in a loop; no loop feeds its own worklist; stored types contain no collections. Further obligations: T05 (depth of the tree logarithmic).')
na('G01', 'Every message finishes within the gas of a block',
   'No state of the book lets a trader make a placement, cancel, claim, swap or query so expensive that it no longer fits into a block.',
   ['inputs', 'histories'], 'every stored state and message',
   'Cost depends on how many ticks and cancellations were accumulated over the life of the book.',
   ['order', 'node', 'query'], [('walk over ticks', 'order.rs run_market_order_internal'), ('tree depth', 'sumtree/node.rs rebalance')],
   'The number of ticks a swap walks and the gas price of each storage access are run-time quantities with no bound in the source (a swap visits every stored tick in its range, empty ones included); the structural part that can be decided is claimed: logarithmic tree depth as T05, no walks outside swaps and one-branch recursion as G02.')
na('L01', 'No history of accepted operations can leave a tick that refuses to sync',
   'The internal failure conditions of a sync (realised cancels shrinking, queue position passing everything placed) never occur, so no order can become impossible to claim or cancel.',
   ['histories'], 'every sequence of placements, swaps, cancels, claims and syncs on a tick',
   'The failure would need a particular interleaving of cancels and fills over a long history.',
   ['tick', 'tree', 'node'], [('guards', 'tick.rs sync_tick')],
   'Needs an invariant relating the numeric contents of the whole cancellation tree, all open orders and the realised amounts over unbounded histories; A03 decides exactly when a sync fails, T01-T04 that the tree operations do not, A02 and P04 the per-operation steps, but the closing numeric induction is beyond a static rule.')
na('X01', 'The bank balance of the contract equals what the book owes plus dust',
   'At any time the tokens held by the contract are exactly open quantities plus unclaimed proceeds plus rounding remainders in its favour.',
   ['histories'], 'every history including transfers to the contract from outside',
   'Balances live in the bank module of the chain; the unit tests mock it.',
   ['order', 'sudo'], [('payments', 'order.rs, sudo.rs')],
   'The balance is held by the chain, can be increased by anybody, and the swap input is moved by the pool manager outside this code; the code-side half, that every payment is covered and recorded, is claimed as B01.')

# rules that a property's argument rests on: they are decided together with it
NEEDS = {
  'P04': ['=A02'], 'U03': ['=U05'], 'E01': ['=K04'], 'T03': ['=T01'], 'N01': ['A03'], 'N03': ['T01', 'T02', 'T06'],
  'K01': ['A03'], 'K02': ['M01', 'M02'], 'K03': ['M01'], 'K04': [], 'K05': ['A03'],
  'S02': ['M01', 'M02'], 'S05': ['M01'], 'Q02': ['M01', 'M02'], 'Q05': ['M02'], 'Q08': ['T04', 'T06'],
  'A01': ['A03'], 'A02': ['A03'], 'A03': ['T04', 'T06'], 'A07': ['A03'],
  'G02': ['T05'],
  'H01': ['P04', 'K01', 'A02', 'A05', 'T04'], 'F03': [], 'F04': [],
  'B01': ['P01', 'N01', 'N02', 'N03', 'K01', 'K02', 'K03', 'K04', 'K05', 'S01', 'S02', 'S03', 'S07', 'A01', 'A02', 'A03', 'M01', 'T01', 'T02', 'T03', 'T04', 'T06'],
}
def closure(pid):
    """properties whose rules are decided along with pid; '=X' takes X's own rules without what X rests on"""
    out = []
    def go(x):
        for y in NEEDS.get(x, []):
            deep = not y.startswith('=')
            y = y.lstrip('=')
            if y not in out and y != pid:
                out.append(y)
                if deep: go(y)
    go(pid)
    return out
