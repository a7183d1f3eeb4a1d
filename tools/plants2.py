H='#include <datatypes.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#define CHECK(c) do{ if(!(c)) { printf("violated: %s (line %d)\\n",#c,__LINE__); return 1; } }while(0)\nstatic int D[64];\nstatic int32_t cmp(const void*a,const void*b){ return *(int*)a-*(int*)b; }\n'
PLANTS=[
dict(id='S11-stack-head-null',property='C06',file='stack.c',old='''	if(iter)
	{
		*data = iter->data;''',new='''	if(iter && iter->data)
	{
		*data = iter->data;''',needs='a stack whose top element is a null pointer',breaks='stack_head() denies that the stack has a top although stack_pop() delivers it',
 demo=H+'''
int main(void){ Stack s; stack_init(&s,cmp,NULL,NULL); stack_push(&s,&D[1]); stack_push(&s,NULL); void*p=&D[5]; CHECK(stack_head(&s,&p)); CHECK(p==NULL); CHECK(stack_pop(&s,&p)&&p==NULL); CHECK(stack_pop(&s,&p)&&p==&D[1]); stack_free(&s); return 0; }
'''),
dict(id='S12-async-clear-waiting',property='C08',file='asyncqueue.c',old='''	queue_clear(&queue->queue);

	PTHREAD_CRITICAL''',new='''	queue_clear(&queue->queue);
	queue->waiting = 0;

	PTHREAD_CRITICAL''',needs='a consumer that already sleeps in a pop when the queue is cleared, and a push afterwards',breaks='the number of waiting consumers is forgotten: the next push does not wake the sleeper',
 demo=H+'''
#include <pthread.h>
#include <time.h>
static AsyncQueue q; static bool got; static void*datum;
static void*consumer(void*x){ got=async_queue_pop_timeout(&q,&datum,6000); return NULL; }
int main(void){ async_queue_init(&q,cmp,NULL,NULL); pthread_t t; pthread_create(&t,NULL,consumer,NULL);
 for(;;){ pthread_mutex_lock(&q.mutex); size_t w=q.waiting; pthread_mutex_unlock(&q.mutex); if(w) break; usleep(1000); }
 async_queue_clear(&q); async_queue_push(&q,&D[7]); pthread_join(t,NULL); CHECK(got); CHECK(datum==&D[7]); return 0; }
'''),
dict(id='S13-async-timeout-drop',property='C07',file='asyncqueue.c',old='''			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));''',new='''			|| (_async_queue_cond_wait(queue, ms) & queue_pop(&queue->queue, data));''',needs='a push that happens between the expiry of the timeout and the moment the waiter holds the mutex again',breaks='the datum is taken out of the queue but the call reports failure: it is delivered to nobody',
 demo=H+'''
#include <pthread.h>
#include <time.h>
static AsyncQueue q; static bool got; static void*datum;
static void*consumer(void*x){ got=async_queue_pop_timeout(&q,&datum,200); return NULL; }
int main(void){ async_queue_init(&q,cmp,NULL,NULL); pthread_t t; pthread_create(&t,NULL,consumer,NULL);
 for(;;){ pthread_mutex_lock(&q.mutex); if(q.waiting) break; pthread_mutex_unlock(&q.mutex); usleep(1000); }
 /* the mutex is held past the timeout; the datum arrives just before it is given back */
 usleep(600000); queue_push(&q.queue,&D[7]); pthread_mutex_unlock(&q.mutex); pthread_join(t,NULL);
 void*p=NULL; bool later=async_queue_pop_timeout(&q,&p,50);
 CHECK((got && datum==&D[7]) != (later && p==&D[7])); return 0; }
'''),
dict(id='S14-rbtree-iter-reuse-empty',property='C14',file='rbtree.c',old='''		if(tree->count + 1 > iter->stack_size)''',new='''		if(tree->count > iter->stack_size)''',needs='an iterator created on an empty tree and reused on a tree with exactly one entry',breaks='no stack is allocated, the first step writes through a null pointer',
 demo=H+'''
int main(void){ RBTree a,b; rbtree_init(&a,cmp,NULL,NULL,NULL); rbtree_init(&b,cmp,NULL,NULL,NULL); RBTreeIter it; rbtree_iter_init(&a,&it); CHECK(!rbtree_iter_next(&it)); rbtree_set(&b,&D[1],&D[2],false); rbtree_iter_reuse(&b,&it); CHECK(rbtree_iter_next(&it)); CHECK(rbtree_iter_get_key(&it)==&D[1]); CHECK(!rbtree_iter_next(&it)); rbtree_iter_free(&it); rbtree_free(&a); rbtree_free(&b); return 0; }
'''),
dict(id='S15-rbtree-pair-null',property='C16',file='rbtree.c',old='''	if(pair->free_value && pair->node->value)
	{
		pair->free_value''',new='''	if(pair->free_value && pair->node->value && value)
	{
		pair->free_value''',needs='setting the value of a found pair to NULL in a tree that owns its values',breaks='the old value is dropped without being freed',
 demo=H+'''
static int nfree; static void fr(void*p){ nfree++; }
int main(void){ RBTree a; rbtree_init(&a,cmp,NULL,fr,NULL); rbtree_set(&a,&D[1],&D[2],false); RBTreePair*p=rbtree_lookup(&a,&D[1]); CHECK(p); p->free_value=fr; rbtree_pair_set_value(p,&D[3]); CHECK(nfree==1); rbtree_pair_set_value(p,NULL); CHECK(nfree==2); rbtree_free(&a); CHECK(nfree==2); return 0; }
'''),
dict(id='S16-rbtree-remove-value',property='C12',file='rbtree.c',old='''		node->value = max->value;
''',new='''		if(max->value)
		{
			node->value = max->value;
		}
''',needs='removing an entry with two subtrees whose in-order predecessor has a null value',breaks='the predecessor takes over the value of the removed entry',
 demo=H+'''
int main(void){ RBTree a; rbtree_init(&a,cmp,NULL,NULL,NULL); for(int i=0;i<7;i++){ D[i]=i; rbtree_set(&a,&D[i],i%2?&D[i]:NULL,false); } int k=3; rbtree_remove(&a,&k); for(int i=0;i<7;i++) if(i!=3){ RBTreePair*p=rbtree_lookup(&a,&D[i]); CHECK(p); CHECK(rbtree_pair_get_value(p)==(i%2?(void*)&D[i]:NULL)); } rbtree_free(&a); return 0; }
'''),
dict(id='S17-pool-give-back-last',property='C17',file='pool.c',old='''	MemoryPool *pool = (MemoryPool *)alloc;
	struct _MemoryPtrBlock *cur;
''',new='''	MemoryPool *pool = (MemoryPool *)alloc;
	struct _MemoryPtrBlock *cur;

	/* the last item of the current block can be given back directly */
	if(pool->block->offset > 1 && (char *)item >= (char *)pool->block->items + pool->item_size * (pool->block->offset - 1))
	{
		--pool->block->offset;
		return;
	}
''',needs='a pool of several blocks whose newest block lies below an older one in memory, and an item of the older block given back',breaks='the newest block takes back an item that is still in use and hands it out again',
 demo=H+'''
const char*__asan_default_options(void){ return "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"; }
int main(void){ for(int round=0;round<64;round++){ MemoryPool*mp=memory_pool_new(32,4); Pool*p=(Pool*)mp; void*x[80]; void*h[80]; for(int i=0;i<80;i++) h[i]=malloc(128); for(int i=79-round%7;i>=0;i-=2){ free(h[i]); h[i]=NULL; }
 for(int i=0;i<80;i++){ x[i]=p->alloc(p); memset(x[i],i,32); if(i>4&&i%4==1){ int k=(i*7+round)%(i-1); p->free(p,x[k]); x[k]=p->alloc(p); memset(x[k],k,32); for(int j=0;j<=i;j++) CHECK(*(unsigned char*)x[j]==j); } }
 for(int i=0;i<80;i++) free(h[i]); memory_pool_destroy(mp); } return 0; }
'''),
dict(id='S18-buffer-limit-overflow',property='C18',file='buffer.c',old='''buf->max_size - buf->len < len''',new='''buf->len + len > buf->max_size''',needs='a fill whose length is so large that the sum with the present length wraps around',breaks='the limit is not noticed and memory outside of the buffer is touched',
 demo=H+'''
int main(void){ Buffer b; buffer_init(&b,100); CHECK(buffer_fill(&b,"12345678",8)); CHECK(!buffer_fill(&b,"12345678",SIZE_MAX-3)); CHECK(!buffer_is_valid(&b)); buffer_free(&b); return 0; }
'''),
dict(id='S19-direct-compare-diff',property='C20',file='compare.c',old='''	return (a > b) - (a < b);''',new='''	return (int32_t)((intptr_t)a - (intptr_t)b);''',needs='two pointers that are more than 2 GB apart',breaks='the difference is truncated: the order is no longer total',
 demo=H+'''
int main(void){ char*a=(char*)0x10; char*b=(char*)0x100000010; char*c=(char*)0x90000010; CHECK(direct_compare(a,b)<0); CHECK(direct_compare(b,a)>0); CHECK(direct_compare(a,c)<0); CHECK(direct_compare(c,b)<0); return 0; }
'''),
dict(id='S20-rbtree-remove-red-root',property='C13',file='rbtree.c',old='''	if(!parent && child)
	{''',new='''	if(!parent && child && tree->count > 1)
	{''',needs='removing the root of a tree of two entries, then inserting below the remaining one',breaks='the remaining root stays red',
 demo=H+'''
int main(void){ RBTree a; rbtree_init(&a,cmp,NULL,NULL,NULL); for(int i=0;i<9;i++) D[i]=i; rbtree_set(&a,&D[1],NULL,false); rbtree_set(&a,&D[2],NULL,false); rbtree_remove(&a,&D[1]); CHECK(a.root && a.root->black); rbtree_set(&a,&D[3],NULL,false); rbtree_set(&a,&D[4],NULL,false); CHECK(rbtree_count(&a)==3); rbtree_free(&a); return 0; }
'''),
dict(id='S21-hash-iter-last-chain',property='C11',file='hashtable.c',old='''			success = _hashtable_iter_get_next_bucket(iter);
			iter->finished = !success;''',new='''			success = _hashtable_iter_get_next_bucket(iter);
			iter->finished = !success || (iter->offset == iter->table->size && iter->table->count < iter->table->size);''',needs='two keys that share the last bucket of a table',breaks='only the first entry of the last chain is visited',
 demo=H+'''
static uint32_t h(const void*p){ return 31; }
static bool eq(const void*a,const void*b){ return *(int*)a==*(int*)b; }
int main(void){ HashTable t; hashtable_init(&t,32,h,eq,NULL,NULL); for(int i=0;i<5;i++){ D[i]=3*i+1; hashtable_set(&t,&D[i],NULL,false); } HashTableIter it; hashtable_iter_init(&t,&it); int n=0; while(hashtable_iter_next(&it)) n++; CHECK(n==5); hashtable_free(&t); return 0; }
'''),
dict(id='S22-hash-remove-order',property='C09',file='hashtable.c',old='''				if(prev)
				{
					prev->next = iter->next;
				}''',new='''				if(prev && prev != table->buckets[index])
				{
					prev->next = iter->next;
				}''',needs='removing the second entry of a chain (two keys in one bucket)',breaks='the first entry of the chain is lost with it',
 demo=H+'''
static uint32_t h(const void*p){ return 5; }
static bool eq(const void*a,const void*b){ return *(int*)a==*(int*)b; }
int main(void){ HashTable t; hashtable_init(&t,32,h,eq,NULL,NULL); for(int i=0;i<4;i++){ D[i]=i; hashtable_set(&t,&D[i],NULL,false); } hashtable_remove(&t,&D[2]); CHECK(hashtable_key_exists(&t,&D[3])); CHECK(hashtable_key_exists(&t,&D[1])); CHECK(hashtable_count(&t)==3); hashtable_free(&t); return 0; }
'''),
dict(id='S23-hash-grow-null-value',property='C10',file='hashtable.c',old='''			if(table->buckets[index])
			{
				iter->next''',new='''			if(!iter->data && !table->free_key && iter->next)
			{
				table->pool->free(table->pool, iter);
				--table->count;
			}
			else if(table->buckets[index])
			{
				iter->next''',needs='an entry with a null value that shares its bucket when the table grows',breaks='growing drops entries that have no value',
 demo=H+'''
static uint32_t h(const void*p){ return *(int*)p/8; }
static bool eq(const void*a,const void*b){ return *(int*)a==*(int*)b; }
static int K[4096];
int main(void){ HashTable t; hashtable_init(&t,0,h,eq,NULL,NULL); size_t n0=t.size; int n=0; while(t.size==n0&&n<4000){ K[n]=n; hashtable_set(&t,&K[n],n%3?&K[n]:NULL,false); n++; } CHECK(t.size!=n0); for(int i=0;i<n;i++) CHECK(hashtable_key_exists(&t,&K[i])); hashtable_free(&t); return 0; }
'''),
dict(id='S24-list-find-null',property='C04',file='list.c',old='''		if(!list->compare(end->data, data))
		{''',new='''		if(end->data && !list->compare(end->data, data))
		{''',needs='a list that contains a null pointer in its second half and a comparison that accepts it',breaks='the item is only found from the front: a search meets the middle first and reports nothing',
 demo=H+'''
static int32_t pcmp(const void*a,const void*b){ return (a>b)-(a<b); }
int main(void){ for(int n=1;n<9;n++) for(int k=0;k<n;k++){ List l; list_init(&l,pcmp,NULL,NULL); for(int i=0;i<n;i++) list_append(&l,i==k?NULL:&D[i]); CHECK(list_contains(&l,NULL)); list_free(&l); } return 0; }
'''),
dict(id='S25-list-pop-backlink',property='C02',file='list.c',old='''		if(list->head)
		{
			list->head->prev = NULL;
		}
		else
		{
			list->tail = NULL;
		}

		data = item->data;''',new='''		if(!list->head)
		{
			list->tail = NULL;
		}

		data = item->data;''',needs='popping the head and then removing the new head by its item',breaks='the new head still refers to the released item; removing it unlinks nothing and the list is left with a dangling head',
 demo=H+'''
int main(void){ List l; list_init(&l,cmp,NULL,NULL); for(int i=0;i<4;i++){ D[i]=i; list_append(&l,&D[i]); } list_pop(&l); CHECK(l.head->prev==NULL); list_remove(&l,l.head); CHECK(list_count(&l)==2); CHECK(l.head->data==&D[2]); list_free(&l); return 0; }
'''),
dict(id='S26-slist-remove-all-free',property='C05',file='slist.c',old=None,new=None,needs='',breaks='',demo=''),
]
PLANTS=[p for p in PLANTS if p['old']]
