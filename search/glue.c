/* accessor macros of the headers, instantiated from C */
#include <datatypes.h>
#include <stdlib.h>
void *g_apk(AssocArrayPair*p){ return assoc_array_pair_key(p); } void *g_apv(AssocArrayPair*p){ return assoc_array_pair_value(p); }
void *g_aik(AssocArrayIter*p){ return assoc_array_iter_key((*p)); } void *g_aiv(AssocArrayIter*p){ return assoc_array_iter_value((*p)); }
size_t g_ais(void){ return sizeof(AssocArrayIter); }
void *g_hpk(HashTablePair*p){ return hashtable_pair_key(p); } void *g_hpv(HashTablePair*p){ return hashtable_pair_value(p); }
void *g_hik(HashTableIter*p){ return hashtable_iter_key((*p)); } void *g_hiv(HashTableIter*p){ return hashtable_iter_value((*p)); }
void *g_rpk(RBTreePair*p){ return rbtree_pair_key(p); } void *g_rpv(RBTreePair*p){ return rbtree_pair_value(p); }
void *g_rik(RBTreeIter*p){ return rbtree_iter_key((*p)); } void *g_riv(RBTreeIter*p){ return rbtree_iter_value((*p)); }
