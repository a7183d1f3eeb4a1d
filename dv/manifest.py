"""Writes MANIFEST.json."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED=dict(l.split(' ',1) for l in '''
C01 every function of slist.c verified against a contract over the sequence of items, for all lists
C02 every function of list.c verified against a contract over the sequence of items and both chains of links
C03 insert_sorted of both lists verified: sorted input gives sorted output that is the input plus the new item; termination by a cursor that advances
C04 find and contains of both lists verified against existence of a match in the sequence
C05 all functions of both lists verified with a ghost count of free calls for an arbitrary datum and ownership of every node
C06 stack and queue operations (macros instantiated as wrappers) verified over the contracts of slist.c
C07 every function of asyncqueue.c verified against a contract over its critical sections: the protected state is owned only between lock and unlock or wait, and satisfies the invariant whenever it is given up
C08 same contracts: signal when waiters are counted, exact count of waiters at every release of the lock, deadline arithmetic against a modelled clock
C09 every function of hashtable.c verified over the multiset of entries, each in the bucket that its hash selects; keys stay unique
C10 hashtable_set verified for growing and fixed tables: all entries survive a resize, buckets match the new size
C11 the iterator verified against the set of entries still to be visited
C12 every function of rbtree.c verified over the sequence of nodes in order, in search order; recursive helpers by contract
C13 same contracts carry black height and colours through every insertion, removal and rotation
C14 the iterator verified against the sequence of entries still to come: each step removes exactly the current one, the end is reported exactly when none is left
C15 every function of assocarray.c verified over the sequence of pairs, including growth and binary search
C16 hash table, red-black tree and associative array: every function verified with ghost counts of free calls for an arbitrary key and value, and ownership of every node
C17 every function of pool.c verified with ownership of every byte: what alloc returns must be memory the pool gives up; the functions installed as alloc and free are found through memory_pool_new
C18 buffer functions verified over the byte sequence, including growth and the limit
C19 buffer readers verified: exact bytes, terminator, remaining content
C20 comparison and hash helpers verified for all arguments
'''.strip().splitlines())
NA=dict(l.split(' ',1) for l in '''
C21 liveness under a fair scheduler: function contracts with pre- and postconditions express what holds at lock acquisition and release, not that a blocked thread is eventually scheduled; the safety part (a push signals while consumers wait, no consumer waits on a non-empty queue) is decided by C08
'''.strip().splitlines())
def main():
    m=dict(version=1,setup_cmd='python3-vt -c "import z3"',checks=[dict(property=p,quick_cmd='python3-vt dv/check.py %s'%p,thorough_cmd='python3-vt dv/check.py %s thorough'%p,technique='contract-based deductive verification (function contracts, loop invariants, ghost state) of the compiled C source; SMT back end z3',level='proof',level_note=n) for p,n in sorted(CLAIMED.items())],
      not_applicable=[dict(property=p,reason=r) for p,r in sorted(NA.items())])
    json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
main()
