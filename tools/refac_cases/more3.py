C={}; CASES=C
L=('list.c',['list_*']); S=('slist.c',['slist_*']); B=('buffer.c',['buffer_*']); AS=('assocarray.c',['assoc_*']); Q=('asyncqueue.c',['async_*'])
H=('hashtable.c',['hashtable_clear','hashtable_free','hashtable_remove','hashtable_set','hashtable_lookup','hashtable_key_exists','hashtable_destroy']); R=('rbtree.c',['rbtree_*','_rb*'])
P=('pool.c',['memory_pool*','memory_pool.alloc=_memory_pool_alloc','memory_pool.free=_memory_pool_free'])
def c(n,u,*subs): C[n]=(u[0],u[1],list(subs))
c('h_clear_release',H,('@hashtable_clear','''	for(size_t i = 0; i < table->size; ++i)
	{
		struct _Bucket *iter = table->buckets[i];

		table->buckets[i] = NULL;

		while(iter)
		{
			struct _Bucket *next = iter->next;

			if(table->free_key)
			{
				table->free_key(iter->key);
			}

			if(table->free_value && iter->data)
			{
				table->free_value(iter->data);
			}

			table->pool->free(table->pool, iter);
			iter = next;
		}
	}

	table->count = 0;
'''))
c('h_free_helper',H,('^_hashtable_free_memory','''static void
_hashtable_free_bucket(const HashTable *table, struct _Bucket *bucket)
{
	if(table->free_key)
	{
		table->free_key(bucket->key);
	}

	if(table->free_value && bucket->data)
	{
		table->free_value(bucket->data);
	}
}

'''),('''				while(iter)
				{
					if(table->free_key)
					{
						table->free_key(iter->key);
					}

					if(table->free_value && iter->data)
					{
						table->free_value(iter->data);
					}

					iter = iter->next;
				}''','''				for(; iter; iter = iter->next)
				{
					_hashtable_free_bucket(table, iter);
				}'''),('''				if(table->free_key)
				{
					table->free_key(iter->key);
				}

				if(table->free_value && iter->data)
				{
					table->free_value(iter->data);
				}

				if(prev)''','''				_hashtable_free_bucket(table, iter);

				if(prev)'''))
c('h_remove_link',H,('@hashtable_remove','''	struct _Bucket **link = &table->buckets[HASHTABLE_INDEX(table, key)];

	while(*link && !table->compare_keys((*link)->key, key))
	{
		link = &(*link)->next;
	}

	struct _Bucket *found = *link;

	if(!found)
	{
		return;
	}

	*link = found->next;
	--table->count;

	if(table->free_key)
	{
		table->free_key(found->key);
	}

	if(table->free_value && found->data)
	{
		table->free_value(found->data);
	}

	table->pool->free(table->pool, found);
'''))
c('h_remove_find',H,('@hashtable_remove','''	size_t index = HASHTABLE_INDEX(table, key);
	struct _Bucket *prev = NULL;
	struct _Bucket *iter = table->buckets[index];

	for(; iter; prev = iter, iter = iter->next)
	{
		if(!table->compare_keys(iter->key, key))
		{
			continue;
		}

		if(prev)
		{
			prev->next = iter->next;
		}
		else
		{
			table->buckets[index] = iter->next;
		}

		if(table->free_value && iter->data)
		{
			table->free_value(iter->data);
		}

		if(table->free_key)
		{
			table->free_key(iter->key);
		}

		table->pool->free(table->pool, iter);
		--table->count;

		break;
	}
'''))
c('h_set_find_inline',H,('@_hashtable_find_bucket','''	for(; head; head = head->next)
	{
		if(table->compare_keys(key, head->key))
		{
			return head;
		}
	}

	return NULL;
'''))
c('h_set_append_front',H,('''		item->key = key;
		item->data = value;
		table->buckets[index] = item;
		item->next = head;''','''		*item = (struct _Bucket){ .key = key, .data = value, .next = table->buckets[index] };
		table->buckets[index] = item;'''))
c('q_deadline_helper',Q,('^_async_queue_cond_wait','''static struct timespec
_async_queue_deadline(uint32_t ms)
{
	struct timeval now;

	gettimeofday(&now, NULL);

	uint64_t us = (uint64_t)now.tv_usec + (uint64_t)(ms % 1000) * 1000;
	struct timespec val;

	val.tv_sec = now.tv_sec + ms / 1000 + (time_t)(us / 1000000);
	val.tv_nsec = (long)(us % 1000000) * 1000;

	return val;
}

'''),('''			struct timespec val;
			struct timeval now;

			gettimeofday(&now, NULL);

			val.tv_sec = now.tv_sec + (ms / 1000);
			val.tv_nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;

			if(val.tv_nsec >= 1000000000L)
			{
				++val.tv_sec;
				val.tv_nsec -= 1000000000L;
			}
''','''			struct timespec val = _async_queue_deadline(ms);
'''))
c('q_wait_split',Q,('^_async_queue_cond_wait','''static int
_async_queue_cond_timedwait(AsyncQueue *queue, uint32_t ms)
{
	struct timespec val;
	struct timeval now;

	gettimeofday(&now, NULL);

	long nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;

	val.tv_sec = now.tv_sec + (ms / 1000) + nsec / 1000000000L;
	val.tv_nsec = nsec % 1000000000L;

	return pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
}

'''),('@_async_queue_cond_wait','''	if(queue->waiting == SIZE_MAX)
	{
		fprintf(stderr, "%s(): integer overflow.\\n", __func__);
		return false;
	}

	++queue->waiting;

	int rc = ms ? _async_queue_cond_timedwait(queue, ms) : pthread_cond_wait(&queue->cond, &queue->mutex);

	--queue->waiting;

	return rc == 0;
'''))
c('q_pop_nested',Q,('@_async_queue_pop','''	bool success = false;

	if(!_async_queue_try_lock(queue))
	{
		return false;
	}

	if(queue_pop(&queue->queue, data))
	{
		success = true;
	}
	else if(_async_queue_cond_wait(queue, ms))
	{
		success = queue_pop(&queue->queue, data);
	}

	PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);

	return success;
'''))
c('q_count_local',Q,('@async_queue_count','''	size_t n;

	PTHREAD_CRITICAL_CALL(pthread_mutex_lock, &queue->mutex);
	n = queue->queue.count;
	PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);

	return n;
'''))
c('b_fd_malloc',B,('''	char data[count];
''','''	char *data = (char *)malloc(count + 1);

	if(!data)
	{
		perror("malloc()");
		abort();
	}
'''),('return bytes;\n}','free(data);\n\n	return bytes;\n}'))
c('b_fill_ensure',B,('@buffer_fill','''	if(!buf->valid)
	{
		return false;
	}

	if(EXCEEDS_BUFFER_MAX_SIZE(buf, len))
	{
		fprintf(stderr, "%s(): buffer exceeds allowed maximum size.\\n", __func__);
		buf->valid = false;

		return false;
	}

	size_t end = buf->len + len;

	if(end > buf->msize)
	{
		size_t size = _buffer_new_realloc_size(buf->msize, buf->msize + len);
		char *ptr = (char *)realloc(buf->data, size);

		if(!ptr)
		{
			perror("realloc()");
			abort();
		}

		buf->data = ptr;
		buf->msize = size;
	}

	memcpy(&buf->data[buf->len], data, len);
	buf->len = end;

	return true;
'''))
c('b_line_end',B,('@buffer_read_line','''	RETURN_VAL_IF_INVALID(buf, false);

	char *start = buf->data;
	char *end = start + buf->len;
	char *ptr = (char *)memchr(start, '\\n', buf->len);

	if(!ptr)
	{
		return false;
	}

	_buffer_copy_to_string(buf, ptr - start, dst, len);

	++ptr;
	memmove(start, ptr, end - ptr);
	buf->len = end - ptr;

	return true;
'''))
c('b_tostring_copy',B,('@buffer_to_string','''	RETURN_VAL_IF_INVALID(buf, NULL);

	char *str = NULL;
	size_t len = 0;

	if(buf->len)
	{
		_buffer_copy_to_string(buf, buf->len, &str, &len);
	}

	return str;
'''))
c('p_alloc_flow',P,('@_memory_pool_alloc','''	MemoryPool *pool = (MemoryPool *)alloc;
	void *item;

	if((item = _memory_pool_try_get_detached_item(pool)) || (item = _memory_pool_try_get_current_item(pool)))
	{
		return item;
	}

	return _memory_pool_get_item_from_new_block(pool);
'''))
c('p_free_push',P,('@_memory_pool_free','''	MemoryPool *pool = (MemoryPool *)alloc;
	struct _MemoryPtrBlock *head = pool->free_block;

	if(!head || head->offset >= pool->block_size)
	{
		struct _MemoryPtrBlock *block = _memory_pool_create_ptr_block(pool);

		block->next = head;
		pool->free_block = block;
		head = block;
	}

	head->items[head->offset] = item;
	head->offset += 1;
'''))
c('p_destroy_order',P,('@memory_pool_destroy','''	for(struct _MemoryPtrBlock *cur = pool->free_block, *next; cur; cur = next)
	{
		next = cur->next;
		free(cur->items);
		free(cur);
	}

	for(struct _MemoryBlock *cur = pool->block, *next; cur; cur = next)
	{
		next = cur->next;
		free(cur->items);
		free(cur);
	}

	free(pool);
'''))
c('l_init_const',L,('@list_init','''	static const List EMPTY;

	*list = EMPTY;
	list->compare = compare;
	list->free = free;
	list->pool = pool;
'''))
c('l_item_const',L,('memset(item, 0, sizeof(ListItem));','const ListItem empty = { NULL, NULL, NULL };\n\n	*item = empty;'))
c('b_init_const',B,('@buffer_init','''	static const Buffer INITIAL = { .msize = 64, .valid = true };

	*buf = INITIAL;
	buf->max_size = max_size;
	buf->data = (char *)malloc(64);

	if(!buf->data)
	{
		perror("malloc()");
		abort();
	}
'''))
