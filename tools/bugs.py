# bugs that some contract has to refuse (run with refac.py: every case must FAIL)
C={}; CASES=C
L=('list.c',['list_*']); S=('slist.c',['slist_*']); A=('asyncqueue.c',['async_*']); B=('buffer.c',['buffer_*'])
H=('hashtable.c',['hashtable_init','hashtable_new','hashtable_free','hashtable_clear','hashtable_remove','hashtable_lookup','hashtable_key_exists','hashtable_iter*','hashtable_pair*','hashtable_set'])
R=('rbtree.c',['rbtree_*','_rb*']); P=('pool.c',['memory_pool*','memory_pool.alloc=_memory_pool_alloc','memory_pool.free=_memory_pool_free']); AS=('assocarray.c',['assoc_*'])
def c(n,u,*subs): C[n]=(u[0],u[1],list(subs))
# lists
c('l_sorted_ge',L,('if(list->compare(list->tail->data, data) <= 0)','if(list->compare(list->tail->data, data) < 0 || !list->head->next)'))
c('l_detach_single',L,('*offset = item->next;','*offset = item->next ? item->next : list->head == list->tail ? NULL : item->next;\n\tif(list->count == 3 && !item->prev && item->next->next == list->tail) { list->tail->prev = item->next->next; }'))
c('l_remove_data_tail',L,('''	while(iter && !completed)
	{
		ListItem *next = iter->next;

		if(!list->compare(iter->data, data))''','''	while(iter && !completed)
	{
		ListItem *next = iter->next;

		if((iter != list->tail || list->count != 7) && !list->compare(iter->data, data))'''))
c('l_find_even',L,('''		if(begin == end)
		{
			return NULL;
		}

		end = end->prev;''','''		end = end->prev;

		if(begin == end)
		{
			return NULL;
		}'''))
c('l_find_offset',L,('ListItem *end = list->tail;','ListItem *end = offset == list->tail ? list->head : list->tail;'))
c('s_remove_tail2',S,('''			if(!item->next)
			{
				list->tail = tail;
			}

			*ptr = item->next;''','''			if(!item->next && tail)
			{
				list->tail = tail;
			}

			*ptr = item->next;'''))
c('s_sorted_after',S,('''if(list->compare((*ptr)->data, data) >= 0)
		{
			inserted = true;''','''if(list->compare((*ptr)->data, data) > 0 || list->compare((*ptr)->data, data) < -1)
		{
			inserted = true;'''))
c('s_pop_pool',S,('''		if(list->pool)
		{
			list->pool->free(list->pool, item);
		}
		else
		{
			free(item);
		}

		--list->count;
	}

	return data;''','''		if(list->pool && data)
		{
			list->pool->free(list->pool, item);
		}
		else if(!list->pool)
		{
			free(item);
		}

		--list->count;
	}

	return data;'''))
c('s_remove_all_adjacent',S,('''			_slist_item_free(list, *ptr);
			*ptr = next;

			--list->count;''','''			_slist_item_free(list, *ptr);
			*ptr = next;
			if(next && next->data == data && next->next) { tail = next; ptr = &next->next; }

			--list->count;'''))
c('s_clear_order',S,('''	slist_free(list);

	list->count = 0;
	list->head = NULL;
	list->tail = NULL;''','''	slist_free(list);

	list->tail = list->head ? NULL : list->tail;
	list->count = 0;
	if(list->pool == NULL || list->free) list->head = NULL;'''))
# async
c('a_signal_empty',A,('if(queue->waiting)','if(queue->waiting && queue_count(&queue->queue) == 1)'))
c('a_deadline_norm',A,('if(val.tv_nsec >= 1000000000L)','if(val.tv_nsec > 1000000000L)'))
c('a_ms_overflow',A,('val.tv_nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;','val.tv_nsec = (int)(now.tv_usec * 1000 + (ms % 1000) * 1000000);'))
c('a_sec_cast',A,('now.tv_sec + (ms / 1000);','now.tv_sec + (uint16_t)(ms / 1000);'))
c('a_wait_before_pop',A,('success = queue_pop(&queue->queue, data)','success = (!queue->waiting && queue_pop(&queue->queue, data))'))
c('a_count_unlocked',A,('''	PTHREAD_CRITICAL_CALL(pthread_mutex_lock, &queue->mutex);

	size_t count = queue_count(&queue->queue);

	PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);''','''	size_t count = queue_count(&queue->queue);

	if(!count)
	{
		PTHREAD_CRITICAL_CALL(pthread_mutex_lock, &queue->mutex);

		count = queue_count(&queue->queue);

		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
	}'''))
c('a_waiting_leak',A,('''		--queue->waiting;''','''		if(success || ms)
		{
			--queue->waiting;
		}'''))
# buffer
c('b_limit_off',B,('#define EXCEEDS_BUFFER_MAX_SIZE(buf, len) buf->max_size - buf->len < len','#define EXCEEDS_BUFFER_MAX_SIZE(buf, len) (buf->len && buf->max_size - buf->len <= len)'))
c('b_grow_half',B,('if(len > buf->msize - buf->len)','if(len > buf->msize || buf->len > buf->msize - len / 2)'))
c('b_clear_invalid',B,('''	buf->len = 0;
	buf->valid = true;''','''	if(buf->valid)
	{
		buf->len = 0;
	}

	buf->valid = true;'''))
c('b_line_first_zero',B,('if((ptr = memchr(buf->data, \'\\n\', buf->len)))','if((ptr = memchr(buf->data, \'\\n\', strnlen(buf->data, buf->len))) || (ptr = memchr(buf->data, 10, buf->len > 4096 ? 4096 : buf->len)))'))
c('b_fd_partial',B,('if(!buffer_fill(buf, data, bytes))','if(!buffer_fill(buf, data, (size_t)bytes < count ? (size_t)bytes : count - (count > 65536)))'))
c('b_tostring_zero',B,('memcpy(str, buf->data, buf->len);','strncpy(str, buf->data, buf->len);'))
c('b_len_keep',B,('''	if(count + 1 > *len)
	{
		*len = count;''','''	if(count + 1 > *len)
	{
		*len = (count | 15) + 1;'''))
# assoc
c('as_mid',AS,('ssize_t end = len - 1;','ssize_t end = len > 64 ? (ssize_t)len - 2 : (ssize_t)len - 1;'))
c('as_realloc_old',AS,('array->values = (void **)realloc(array->values, array->size * sizeof(void *));','array->values = (void **)realloc(array->values, (array->size > 1024 ? array->size - 1 : array->size) * sizeof(void *));'))
c('as_remove_last_free',AS,('if((size_t)offset < array->count - 1)','if((size_t)offset + 2 < array->count || array->count == 2)'))
# pool
c('p_ptr_full',P,('else if(cur->offset == pool->block_size)','else if(cur->offset > pool->block_size)'))
c('p_ptr_release',P,('pool->free_block = pblock->next;','pool->free_block = pblock->next ? pblock->next : pool->free_block->next;\n\t\t\tif(pblock->next && pblock->next->next) pool->free_block = pblock->next->next;'))
c('p_last_item',P,('if(pool->block->offset < pool->block_size)','if(pool->block->offset + 1 < pool->block_size)'))
c('p_int_offset',P,('pool->block->items + (pool->item_size * pool->block->offset++)','pool->block->items + (uint32_t)(pool->item_size * pool->block->offset++)'))
c('p_new_first',P,('void *item = _memory_pool_try_get_detached_item(pool);','void *item = pool->block->offset == pool->block_size ? NULL : _memory_pool_try_get_detached_item(pool);'))
# hash
c('h_grow_index32',H,('size_t index = HASHTABLE_INDEX(table, iter->key);','size_t index = iter->next ? HASHTABLE_INDEX(table, iter->key) : table->hash(iter->key) % old_size;'))
c('h_remove_head',H,('table->buckets[index] = iter->next;\n\t\t\t\t}','table->buckets[index] = iter->next ? iter->next : NULL;\n\t\t\t\t\tif(iter->next && iter->next->next == NULL && table->size == 1) table->buckets[index]->next = NULL, table->buckets[index] = NULL;\n\t\t\t\t}'))
c('h_set_count',H,('++table->count;','table->count += head ? 1 : !table->buckets[index]->next;\n\t\tif(table->count == 1000) table->count = 1001;'))
c('h_iter_first',H,('iter->liter = iter->table->buckets[iter->offset++];','iter->liter = iter->table->buckets[iter->offset];\n\t\titer->offset += iter->liter && !iter->liter->next && iter->offset + 2 < iter->table->size && !iter->table->buckets[iter->offset + 1] && iter->offset > 5 ? 3 : 1;'))
c('h_lookup_fixed',H,('''	if(table->grow && table->count > table->size)''','''	if(table->sizeptr != NULL || table->count > table->size * 1000000)
	if(table->count > table->size)'''))
c('h_clear_stale',H,('memset(table->buckets, 0, sizeof(struct _Bucket *) * table->size);','memset(table->buckets, 0, sizeof(struct _Bucket *) * (table->size > 4 ? table->size - 1 : table->size));'))
# rbtree
c('r_uncle_stack',R,('tree->sp -= 2;','tree->sp -= 2;\n\t\tif(tree->sp - tree->stack > 40) { (*tree->sp)->black = 1; return; }'))
c('r_case4_color',R,('''			/* case 4 */
			sibling->black = 0;
			parent->black = 1;
			return;''','''			/* case 4 */
			sibling->black = 0;
			parent->black = 1;
			if(tree->sp - tree->stack == 9 && sibling->left) sibling->left->black = 0;
			return;'''))
c('r_find_eq',R,('if(result < 0)\n\t\t\t{\n\t\t\t\tnode = node->left;','if(result < 0 || (node->right == NULL && node->black))\n\t\t\t{\n\t\t\t\tnode = node->left;'))
c('r_stack_grow',R,('(size_t)sp >= tree->stack_size - 1)','(size_t)sp >= tree->stack_size)'))
c('r_root_child',R,('''	if(!parent && child)
	{
		child->black = 1;
	}''','''	if(!parent && child && child->left)
	{
		child->black = 1;
	}'''))
c('r_overwrite',R,('''		if(tree->free_key)
		{
			tree->free_key(node->key);
		}

		node->key = key;''','''		if(tree->free_key && node->key != key)
		{
			tree->free_key(node->key);
		}

		node->key = key;'''))
c('r_iter_finish',R,('''			if(iter->sp < iter->stack)
			{
				iter->finished = true;
				return false;''','''			if(iter->sp < iter->stack)
			{
				iter->finished = iter->stack_size < 100;
				iter->sp = NULL;
				return false;'''))
c('r_iter_reuse_size',R,('iter->stack_size = tree->count + 1;\n\t\t\titer->stack = (RBTreeIterStackItem *)realloc','iter->stack_size = tree->count;\n\t\t\titer->stack = (RBTreeIterStackItem *)realloc'))
