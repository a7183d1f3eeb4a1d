H='#include <datatypes.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#define CHECK(c) do{ if(!(c)) { printf("violated: %s (line %d)\\n",#c,__LINE__); return 1; } }while(0)\nstatic int cmp(const void*a,const void*b){ int x=a?*(int*)a:-1,y=b?*(int*)b:-1; return x-y; }\nstatic int D[300];\n'
PLANTS=[
dict(id='S26-slist-pop-pool-leak',property='C05',file='slist.c',old='''		data = item->data;

		if(list->pool)
		{''',new='''		data = item->data;

		if(list->pool && !data)
		{
		}
		else if(list->pool)
		{''',needs='a list with a pool and an item that holds a null pointer',breaks='pop does not give the memory of the item back to the pool',
 demo=H+'''
static int used; static void*al(Pool*p){ used++; return malloc(64); } static void fr(Pool*p,void*x){ used--; free(x); }
int main(void){ Pool p={al,fr}; SList l; slist_init(&l,(CompareFunc)cmp,NULL,&p); slist_append(&l,NULL); slist_append(&l,&D[1]); CHECK(used==2); slist_pop(&l); slist_pop(&l); CHECK(used==0); slist_free(&l); return 0; }
'''),
dict(id='S27-async-deadline-carry',property='C08',file='asyncqueue.c',old='if(val.tv_nsec >= 1000000000L)',new='if(val.tv_nsec > 1000000000L)',needs='a call at an instant whose microseconds and the milliseconds of the timeout add up to exactly one second',breaks='the deadline has a nanosecond part of 1000000000, which is not a valid time: the wait fails at once',
 demo=H+'''
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
static struct timespec dl; static int waits;
int gettimeofday(struct timeval*t,void*z){ t->tv_sec=100; t->tv_usec=750000; return 0; }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*d){ dl=*d; waits++; return ETIMEDOUT; }
int main(void){ AsyncQueue q; async_queue_init(&q,(CompareFunc)cmp,NULL,NULL); void*p; CHECK(!async_queue_pop_timeout(&q,&p,250)); CHECK(waits==1); CHECK(dl.tv_nsec>=0 && dl.tv_nsec<1000000000L); CHECK(dl.tv_sec==101 && dl.tv_nsec==0); async_queue_free(&q); return 0; }
'''),
dict(id='S28-buffer-grow-need',property='C18',file='buffer.c',old='_buffer_new_realloc_size(buf->msize, buf->msize + len)',new='_buffer_new_realloc_size(buf->msize, len)',needs='two writes that each fit into the present allocation but not together',breaks='the second write goes beyond the allocated memory',
 demo=H+"""
int main(void){ Buffer b; buffer_init(&b,1000); char x[60]; memset(x,'x',60); CHECK(buffer_fill(&b,x,60)); CHECK(buffer_fill(&b,x,60)); CHECK(buffer_len(&b)==120); CHECK(b.msize>=120); buffer_free(&b); return 0; }
"""),
dict(id='S29-rbtree-iter-restart',property='C14',file='rbtree.c',old='''				iter->finished = true;

				return false;''',new='''				iter->sp = NULL;
				return false;''',needs='asking an iterator again after it has reported the end',breaks='the iterator starts again instead of reporting the end',
 demo=H+'''
int main(void){ RBTree t; rbtree_init(&t,(CompareFunc)cmp,NULL,NULL,NULL); for(int i=0;i<5;i++){ D[i]=i; rbtree_set(&t,&D[i],NULL,false); } RBTreeIter it; rbtree_iter_init(&t,&it); int n=0; while(rbtree_iter_next(&it)) n++; CHECK(n==5); CHECK(!rbtree_iter_next(&it)); CHECK(!rbtree_iter_next(&it)); rbtree_iter_free(&it); rbtree_free(&t); return 0; }
'''),
dict(id='S30-rbtree-remove-mirror',property='C13',file='rbtree.c',old='''		sibling->left->black = 1;
		_rbnode_rotate_right(tree, parent, grandparent);''',new='''		_rbnode_rotate_right(tree, parent, grandparent);
		if(sibling->black) sibling->left->black = 1;''',needs='removing a right child whose black sibling has a red left child, below a red parent',breaks='a red node gets a red child, paths differ in their number of black nodes',
 demo=H+'''
static int bh(RBNode*n,int red){ if(!n) return 1; if(red && !n->black) return -1000; int l=bh(n->left,!n->black),r=bh(n->right,!n->black); if(l<0||r<0||l!=r) return -1000; return l+n->black; }
int main(void){ for(int i=0;i<300;i++) D[i]=i; unsigned s=1; for(int k=0;k<300;k++){ RBTree t; rbtree_init(&t,(CompareFunc)cmp,NULL,NULL,NULL); for(int j=0;j<60;j++){ s=s*1103515245u+12345; int i=(s>>16)%40; if((s>>8)&1) rbtree_set(&t,&D[i],NULL,false); else rbtree_remove(&t,&D[i]); CHECK(bh(t.root,1)>0); } rbtree_free(&t); } return 0; }
'''),
dict(id='S31-async-pop-behind-waiters',property='C07',file='asyncqueue.c',old='success = queue_pop(&queue->queue, data)',new='success = (!queue->waiting && queue_pop(&queue->queue, data))',needs='a pop while another consumer has been signalled but does not run yet',breaks='a pop reports failure although the queue held data when it looked',
 demo=H+'''
#include <pthread.h>
static AsyncQueue q; static void*consumer(void*x){ void*p; async_queue_pop_timeout(&q,&p,1500); return NULL; }
int main(void){ async_queue_init(&q,(CompareFunc)cmp,NULL,NULL); pthread_t t; pthread_create(&t,NULL,consumer,NULL);
 for(;;){ pthread_mutex_lock(&q.mutex); size_t w=q.waiting; if(w) break; pthread_mutex_unlock(&q.mutex); usleep(1000); }
 queue_push(&q.queue,&D[1]); pthread_mutex_unlock(&q.mutex);
 void*p=NULL; CHECK(async_queue_pop_timeout(&q,&p,200)); CHECK(p==&D[1]); pthread_join(t,NULL); async_queue_free(&q); return 0; }
'''),
dict(id='S32-list-sorted-narrow',property='C03',file='list.c',old='if(list->compare(list->tail->data, data) <= 0)',new='int8_t order = list->compare(list->tail->data, data);\n\n\t\t\tif(order <= 0)',needs='a comparison function whose results exceed one byte',breaks='a datum far below the last one is appended: the list is no longer sorted',
 demo=H+'''
int main(void){ List l; D[0]=0; D[1]=200; D[2]=50; list_init(&l,(CompareFunc)cmp,NULL,NULL); list_insert_sorted(&l,&D[1]); list_insert_sorted(&l,&D[0]); list_insert_sorted(&l,&D[2]); int last=-1; for(ListItem*i=list_head(&l);i;i=i->next){ CHECK(*(int*)i->data>=last); last=*(int*)i->data; } list_free(&l); return 0; }
'''),
dict(id='S33-hash-clear-count',property='C16',file='hashtable.c',old='''	if(table->free_key || table->free_value)
	{''',new='''	if(table->count && (table->free_key || table->free_value))
	{''',needs='clearing a table that owns its keys or values (clear sets the count to zero before it frees)',breaks='nothing is freed when a table is cleared',
 demo=H+'''
static int nf; static void fr(void*p){ nf++; } static uint32_t h(const void*p){ return *(int*)p; } static bool eq(const void*a,const void*b){ return *(int*)a==*(int*)b; }
int main(void){ HashTable t; hashtable_init(&t,8,h,eq,fr,NULL); for(int i=0;i<5;i++){ D[i]=i; hashtable_set(&t,&D[i],NULL,false); } hashtable_clear(&t); CHECK(nf==5); hashtable_set(&t,&D[0],NULL,false); hashtable_free(&t); CHECK(nf==6); return 0; }
'''),
dict(id='S34-pool-reuse-late',property='C17',file='pool.c',old='''	void *item = _memory_pool_try_get_detached_item(pool);
''',new='''	void *item = NULL;

	if(!pool->block->next || pool->block->offset < pool->block_size)
	{
		item = _memory_pool_try_get_detached_item(pool);
	}
''',needs='released items while a second block is full',breaks='a new block is requested although released items are available',
 demo=H+'''
int main(void){ MemoryPool*m=memory_pool_new(16,4); Pool*p=(Pool*)m; void*x[8]; for(int i=0;i<8;i++) x[i]=p->alloc(p); p->free(p,x[3]); p->free(p,x[6]); void*a=p->alloc(p); CHECK(a==x[6]||a==x[3]); void*b=p->alloc(p); CHECK((b==x[6]||b==x[3])&&a!=b); memory_pool_destroy(m); return 0; }
'''),
dict(id='S35-assoc-search-narrow',property='C15',file='assocarray.c',old='ssize_t end = len - 1;',new='ssize_t end = (int16_t)(len - 1);',needs='more than 32768 entries',breaks='keys are not found any more and can be added twice',
 demo=H+"""
static int K[40000];
int main(void){ AssocArray a; assoc_array_init(&a,(CompareFunc)cmp,NULL,NULL); for(int i=0;i<40000;i++) K[i]=i; for(int i=0;i<40000;i++){ CHECK(assoc_array_set(&a,&K[i],&K[i],false)==ASSOCARRAY_INSERT_RESULT_NEW); } CHECK(assoc_array_lookup(&a,&K[39999])); CHECK(assoc_array_set(&a,&K[39999],NULL,false)==ASSOCARRAY_INSERT_RESULT_REPLACED); CHECK(assoc_array_count(&a)==40000); assoc_array_free(&a); return 0; }
"""),
]
