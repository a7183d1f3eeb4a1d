/* The function-like macros of stack.h and queue.h as functions, compiled against /repo's current headers. */
#include "stack.h"
#include "queue.h"
Stack *vf_stack_new(CompareFunc c,FreeFunc f,Pool *p){ return stack_new(c,f,p); }
void vf_stack_init(Stack *s,CompareFunc c,FreeFunc f,Pool *p){ stack_init(s,c,f,p); }
void vf_stack_destroy(Stack *s){ stack_destroy(s); }
void vf_stack_free(Stack *s){ stack_free(s); }
void vf_stack_push(Stack *s,void *d){ stack_push(s,d); }
void vf_stack_clear(Stack *s){ stack_clear(s); }
size_t vf_stack_count(const Stack *s){ return stack_count(s); }
Queue *vf_queue_new(CompareFunc c,FreeFunc f,Pool *p){ return queue_new(c,f,p); }
void vf_queue_init(Queue *s,CompareFunc c,FreeFunc f,Pool *p){ queue_init(s,c,f,p); }
void vf_queue_destroy(Queue *s){ queue_destroy(s); }
void vf_queue_free(Queue *s){ queue_free(s); }
void vf_queue_push(Queue *s,void *d){ queue_push(s,d); }
bool vf_queue_pop(Queue *s,void **d){ return queue_pop(s,d); }
bool vf_queue_head(Queue *s,void **d){ return queue_head(s,d); }
void vf_queue_clear(Queue *s){ queue_clear(s); }
size_t vf_queue_count(const Queue *s){ return queue_count(s); }
#include "assocarray.h"
void *vf_assoc_pair_key(AssocArrayPair *p){ return assoc_array_pair_key(p); }
void *vf_assoc_pair_value(AssocArrayPair *p){ return assoc_array_pair_value(p); }
void *vf_assoc_iter_key(AssocArrayIter *p){ return assoc_array_iter_key((*p)); }
void *vf_assoc_iter_value(AssocArrayIter *p){ return assoc_array_iter_value((*p)); }
#include "hashtable.h"
void *vf_hashtable_pair_key(HashTablePair *p){ return hashtable_pair_key(p); }
void *vf_hashtable_pair_value(HashTablePair *p){ return hashtable_pair_value(p); }
void *vf_hashtable_iter_key(HashTableIter *p){ return hashtable_iter_key((*p)); }
void *vf_hashtable_iter_value(HashTableIter *p){ return hashtable_iter_value((*p)); }
#include "rbtree.h"
void *vf_rbtree_pair_key(RBTreePair *p){ return rbtree_pair_key(p); }
void *vf_rbtree_pair_value(RBTreePair *p){ return rbtree_pair_value(p); }
void *vf_rbtree_iter_key(RBTreeIter *p){ return rbtree_iter_key((*p)); }
void *vf_rbtree_iter_value(RBTreeIter *p){ return rbtree_iter_value((*p)); }
