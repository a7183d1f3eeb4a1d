C={}
CASES=C
Q='asyncqueue.c'; QA=['async*','_async*','vf_async*']
P='pool.c'; PA=['memory_pool*','_memory_pool*','vf_pool*']
C['q_sequential']=(Q,QA,[('''success = queue_pop(&queue->queue, data)
			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));''','''success = queue_pop(&queue->queue, data);

		if(!success && _async_queue_cond_wait(queue, ms))
		{
			success = queue_pop(&queue->queue, data);
		}''')])
C['q_count_check']=(Q,QA,[('''success = queue_pop(&queue->queue, data)
			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));''','''if(queue_count(&queue->queue) || _async_queue_cond_wait(queue, ms))
		{
			success = queue_pop(&queue->queue, data);
		}''')])
C['q_signal_always']=(Q,QA,[('''if(queue->waiting)
	{
		PTHREAD_CALL(pthread_cond_signal, &queue->cond);
	}''','''PTHREAD_CALL(pthread_cond_signal, &queue->cond);''')])
C['q_broadcast']=(Q,QA,[('''PTHREAD_CALL(pthread_cond_signal, &queue->cond);''','''PTHREAD_CALL(pthread_cond_broadcast, &queue->cond);''')])
C['q_deadline_fn']=(Q,QA,[('^_async_queue_cond_wait','''static void
_deadline(struct timespec *val, uint32_t ms)
{
	struct timeval now;

	gettimeofday(&now, NULL);

	uint64_t ns = (uint64_t)now.tv_usec * 1000 + (uint64_t)(ms % 1000) * 1000000;
	val->tv_sec = now.tv_sec + ms / 1000 + (time_t)(ns / 1000000000);
	val->tv_nsec = (long)(ns % 1000000000);
}

'''),('''struct timespec val;
			struct timeval now;

			gettimeofday(&now, NULL);

			val.tv_sec = now.tv_sec + (ms / 1000);
			val.tv_nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;

			if(val.tv_nsec >= 1000000000L)
			{
				++val.tv_sec;
				val.tv_nsec -= 1000000000L;
			}
''','''struct timespec val;
			_deadline(&val, ms);
''')])
C['q_clock']=(Q,QA,[('''struct timeval now;

			gettimeofday(&now, NULL);

			val.tv_sec = now.tv_sec + (ms / 1000);
			val.tv_nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;''','''clock_gettime(CLOCK_REALTIME, &val);
			val.tv_sec += ms / 1000;
			val.tv_nsec += (ms % 1000) * 1000000L;''')])
C['q_while_ns']=(Q,QA,[('''if(val.tv_nsec >= 1000000000L)''','''while(val.tv_nsec >= 1000000000L)''')])
C['q_early']=(Q,QA,[('''bool success = false;

	if(_async_queue_try_lock(queue))
	{
		success = queue_pop(&queue->queue, data)
			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));

		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
	}

	return success;''','''if(!_async_queue_try_lock(queue))
	{
		return false;
	}

	bool success = queue_pop(&queue->queue, data)
		|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));

	PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);

	return success;''')])
C['q_lock_helper']=(Q,QA,[('^async_queue_push','''static void
_lock(AsyncQueue *queue)
{
	PTHREAD_CRITICAL_CALL(pthread_mutex_lock, &queue->mutex);
}

static void
_unlock(AsyncQueue *queue)
{
	PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
}

'''),('@async_queue_push','''	_lock(queue);
	queue_push(&queue->queue, data);
	bool wake = queue->waiting > 0;
	if(wake) { PTHREAD_CALL(pthread_cond_signal, &queue->cond); }
	_unlock(queue);'''),('@async_queue_count','''	_lock(queue);
	size_t n = queue_count(&queue->queue);
	_unlock(queue);

	return n;''')])
C['q_signal_after']=(Q,QA,[('@async_queue_push','''	PTHREAD_CRITICAL_CALL(pthread_mutex_lock, &queue->mutex);

	queue_push(&queue->queue, data);
	bool wake = queue->waiting > 0;

	PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);

	if(wake) { PTHREAD_CALL(pthread_cond_signal, &queue->cond); }''')])
C['q_signal_before']=(Q,QA,[('''queue_push(&queue->queue, data);

	if(queue->waiting)
	{
		PTHREAD_CALL(pthread_cond_signal, &queue->cond);
	}''','''if(queue->waiting)
	{
		PTHREAD_CALL(pthread_cond_signal, &queue->cond);
	}

	queue_push(&queue->queue, data);''')])
C['q_loop_wait']=(Q,QA,[('''success = queue_pop(&queue->queue, data)
			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));''','''success = queue_pop(&queue->queue, data);

		while(!success && _async_queue_cond_wait(queue, ms))
		{
			success = queue_pop(&queue->queue, data);
			if(ms) { break; }
		}''')])
C['p_alloc_chain']=(P,PA,[('@_memory_pool_alloc','''	MemoryPool *pool = (MemoryPool *)alloc;
	void *item;

	if((item = _memory_pool_try_get_detached_item(pool))) { return item; }
	if((item = _memory_pool_try_get_current_item(pool))) { return item; }

	return _memory_pool_get_item_from_new_block(pool);''')])
C['p_new_block']=(P,PA,[('@_memory_pool_get_item_from_new_block','''	struct _MemoryBlock *block = _memory_pool_create_block(pool);

	block->offset = 1;
	block->next = pool->block;
	pool->block = block;

	return block->items;''')])
C['p_detached']=(P,PA,[('@_memory_pool_try_get_detached_item','''	struct _MemoryPtrBlock *top = pool->free_block;

	if(!top)
	{
		return NULL;
	}

	top->offset -= 1;
	void *item = top->items[top->offset];

	if(top->offset == 0)
	{
		pool->free_block = top->next;
		free(top->items);
		free(top);
	}

	return item;''')])
C['p_free_merge']=(P,PA,[('@_memory_pool_free','''	MemoryPool *pool = (MemoryPool *)alloc;
	struct _MemoryPtrBlock *cur = pool->free_block;

	if(!cur || cur->offset >= pool->block_size)
	{
		struct _MemoryPtrBlock *next = cur;
		cur = _memory_pool_create_ptr_block(pool);
		cur->next = next;
		pool->free_block = cur;
	}

	cur->items[cur->offset] = item;
	++cur->offset;''')])
C['p_destroy_for']=(P,PA,[('@memory_pool_destroy','''	struct _MemoryPtrBlock *piter = pool->free_block;
	while(piter)
	{
		struct _MemoryPtrBlock *next = piter->next;
		free(piter->items);
		free(piter);
		piter = next;
	}

	for(struct _MemoryBlock *b = pool->block, *next; b; b = next)
	{
		next = b->next;
		free(b->items);
		free(b);
	}

	free(pool);''')])
C['p_destroy_head']=(P,PA,[('@memory_pool_destroy','''	while(pool->block)
	{
		struct _MemoryBlock *b = pool->block;
		pool->block = b->next;
		free(b->items);
		free(b);
	}

	while(pool->free_block)
	{
		struct _MemoryPtrBlock *b = pool->free_block;
		pool->free_block = b->next;
		free(b->items);
		free(b);
	}

	free(pool);''')])
C['p_calloc']=(P,PA,[('''block->offset = 0;
	block->next = NULL;

	return block;
}

static struct _MemoryPtrBlock *''','''*block = (struct _MemoryBlock){.items = block->items, .offset = 0, .next = NULL};

	return block;
}

static struct _MemoryPtrBlock *''')])
C['p_current']=(P,PA,[('@_memory_pool_try_get_current_item','''	struct _MemoryBlock *b = pool->block;

	if(b->offset >= pool->block_size)
	{
		return NULL;
	}

	size_t pos = b->offset++;

	return b->items + pos * pool->item_size;''')])
H='hash.c'
C['h_for']=(H,['str_*','direct_*'],[('@str_hash','''	uint32_t hash = 0;

	for(const char *p = ptr; *p != '\\0'; ++p)
	{
		hash = *p + (hash << 6) + (hash << 16) - hash;
	}

	return hash;''')])
C['h_index']=(H,['str_*','direct_*'],[('@str_hash','''	const char *plain = ptr;
	uint32_t hash = 0;

	for(size_t i = 0; plain[i]; i++)
	{
		hash = plain[i] + (hash << 6) + (hash << 16) - hash;
	}

	return hash;''')])
C['h_mul']=(H,['str_*','direct_*'],[('hash = *plain++ + (hash << 6) + (hash << 16) - hash;','hash = hash * 65599 + *plain++;')])
C['h_strlen']=(H,['str_*','direct_*'],[('@str_hash','''	const char *plain = ptr;
	uint32_t hash = 0;
	size_t n = 0;

	while(plain[n]) { ++n; }

	for(size_t i = 0; i < n; i++)
	{
		hash = plain[i] + (hash << 6) + (hash << 16) - hash;
	}

	return hash;''')])
C['h_direct']=(H,['str_*','direct_*'],[('''if(v > UINT32_MAX)
	{
		fprintf(stderr, "%s(): integer overflow.\\n", __func__);
		v = UINT32_MAX;
	}

	return (uint32_t)v;''','''if(v <= UINT32_MAX)
	{
		return (uint32_t)v;
	}

	fprintf(stderr, "%s(): integer overflow.\\n", __func__);

	return UINT32_MAX;''')])
M='compare.c'; MA=['str_*','direct_*']
C['c_strcmp']=(M,MA,[('@str_equal','''	const unsigned char *s0 = a;
	const unsigned char *s1 = b;

	while(*s0 == *s1)
	{
		if(*s0 == 0) { return true; }
		++s0;
		++s1;
	}

	return false;''')])
C['c_index']=(M,MA,[('@str_equal','''	const char *s0 = a;
	const char *s1 = b;
	size_t i = 0;

	while(s0[i] && s0[i] == s1[i])
	{
		i++;
	}

	return s0[i] == s1[i];''')])
C['c_for']=(M,MA,[('@str_equal','''	const char *s0 = a;
	const char *s1 = b;

	for(; *s0 || *s1; s0++, s1++)
	{
		if(*s0 != *s1) { return false; }
	}

	return true;''')])
C['c_strcmp2']=(M,MA,[('@str_equal','''	return strcmp((const char *)a, (const char *)b) == 0;'''),('#include <stdlib.h>','#include <stdlib.h>\n#include <string.h>')])
C['c_cmp']=(M,MA,[('return (a > b) - (a < b);','''if(a == b) { return 0; }

	return a > b ? 1 : -1;''')])
C['c_cmp2']=(M,MA,[('return (a > b) - (a < b);','''uintptr_t x = (uintptr_t)a;
	uintptr_t y = (uintptr_t)b;

	return x < y ? -1 : (x > y);''')])
S='stack.c'; SA=['stack_*','vf_stack*']
C['s_pop']=(S,SA,[('@stack_pop','''	if(!slist_count(stack))
	{
		*data = NULL;
		return false;
	}

	*data = slist_pop(stack);

	return true;''')])
C['s_head']=(S,SA,[('@stack_head','''	SListItem *top = slist_head(stack);

	if(!top) { return false; }

	*data = top->data;

	return true;''')])
C['s_head2']=(S,SA,[('@stack_head','''	if(stack->head == NULL)
	{
		return false;
	}

	*data = slist_head(stack)->data;

	return true;''')])
