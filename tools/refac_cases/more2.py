C={}; CASES=C
L=('list.c',['list_*']); S=('slist.c',['slist_*']); B=('buffer.c',['buffer_*']); AS=('assocarray.c',['assoc_*']); Q=('asyncqueue.c',['async_*'])
H=('hashtable.c',['hashtable_*']); R=('rbtree.c',['rbtree_*','_rb*'])
P=('pool.c',['memory_pool*','memory_pool.alloc=_memory_pool_alloc','memory_pool.free=_memory_pool_free'])
def c(n,u,*subs): C[n]=(u[0],u[1],list(subs))
c('l_init_fields',L,('@list_init','''	list->head = NULL;
	list->tail = NULL;
	list->count = 0;
	list->free = free;
	list->compare = compare;
	list->pool = pool;
'''))
c('l_init_literal',L,('@list_init','''	*list = (List){ .compare = compare, .free = free, .pool = pool };
'''))
c('l_new_calloc',L,('@list_new','''	List *list = (List *)calloc(1, sizeof(List));

	if(list == NULL)
	{
		perror("calloc()");
		abort();
	}

	list->compare = compare;
	list->free = free;
	list->pool = pool;

	return list;
'''))
c('l_item_calloc',L,('@_list_item_new','''	ListItem *item;

	if(pool)
	{
		item = (ListItem *)pool->alloc(pool);
		item->next = NULL;
		item->prev = NULL;
	}
	else
	{
		item = (ListItem *)calloc(1, sizeof(ListItem));

		if(!item)
		{
			perror("calloc()");
			abort();
		}
	}

	item->data = data;

	return item;
'''))
c('l_item_literal',L,('memset(item, 0, sizeof(ListItem));\n	item->data = data;','*item = (ListItem){ .data = data };'))
c('l_free_late',L,('@_list_item_free','''	void *data = item->data;
	Pool *pool = list->pool;

	if(!pool)
	{
		free(item);
	}
	else
	{
		pool->free(pool, item);
	}

	if(data && list->free)
	{
		list->free(data);
	}
'''))
c('l_remove_first',L,('@list_remove','''	assert(list->count > 0);

	--list->count;
	_list_detach(list, item);
	_list_item_free(list, item);
'''))
c('l_contains_loop',L,('@list_contains','''	for(const ListItem *item = list->head; item; item = item->next)
	{
		if(list->compare(item->data, data) == 0)
		{
			return true;
		}
	}

	return false;
'''))
c('s_sorted_merge',S,('@slist_insert_sorted','''	if(list->count == SIZE_MAX)
	{
		return NULL;
	}

	if(!list->count || list->compare(list->tail->data, data) <= 0)
	{
		return slist_append(list, data);
	}

	return _slist_prepend_new_sorted(list, data);
'''))
c('s_find_loop',S,('@slist_find','''	SListItem *item = offset ? offset : list->head;

	while(item)
	{
		if(!list->compare(item->data, data))
		{
			break;
		}

		item = item->next;
	}

	return item;
'''))
c('s_init_fields',S,('@slist_init','''	list->head = list->tail = NULL;
	list->count = 0;
	list->compare = compare;
	list->free = free;
	list->pool = pool;
'''))
c('h_init_literal',H,('@hashtable_init','''	bool grow = size == HASHTABLE_AUTO_RESIZE;
	size_t n = grow ? PRIMES[0] : size;

	*table = (HashTable)
	{
		.hash = hash_func,
		.compare_keys = compare_keys,
		.free_key = free_key,
		.free_value = free_value,
		.size = n,
		.grow = grow,
		.sizeptr = grow ? PRIMES : NULL
	};

	table->pair.free_value = free_value;
	table->buckets = (struct _Bucket **)calloc(n, sizeof(struct _Bucket *));

	if(!table->buckets)
	{
		perror("calloc()");
		abort();
	}

	table->pool = (Pool *)memory_pool_new(sizeof(struct _Bucket), HASHTABLE_BUCKET_POOL_BLOCK_SIZE);
'''))
c('h_iter_fields',H,('@hashtable_iter_init','''	*iter = (HashTableIter){ .table = table };
'''))
c('h_pair_swap',H,('@hashtable_pair_set_value','''	struct _Bucket *bucket = pair->bucket;
	void *old = bucket->data;

	bucket->data = value;

	if(old && pair->free_value)
	{
		pair->free_value(old);
	}
'''))
c('h_free_order',H,('@hashtable_free','''	struct _Bucket **buckets = table->buckets;
	MemoryPool *pool = (MemoryPool *)table->pool;

	_hashtable_free_memory(table);
	free(buckets);
	memory_pool_destroy(pool);
'''))
c('r_create_literal',R,('node->key = key;\n	node->value = value;\n	node->black = black;\n	node->left = left;\n	node->right = right;','*node = (RBNode){ .key = key, .value = value, .black = black, .left = left, .right = right };'))
c('r_set_inline',R,('@rbtree_set','''	if(tree->root)
	{
		return _rbtree_insert_child(tree, key, value, overwrite_key);
	}

	bool inserted = _rbtree_insert_root(tree, key, value);

	assert(inserted);
	(void)inserted;

	return RBTREE_INSERT_RESULT_NEW;
'''))
c('r_replace_order',R,('@_rbtree_replace_node','''	void *old = node->value;

	node->value = value;

	if(old && tree->free_value)
	{
		tree->free_value(old);
	}

	if(!overwrite_key)
	{
		return;
	}

	old = node->key;
	node->key = key;

	if(tree->free_key)
	{
		tree->free_key(old);
	}
'''))
c('r_lookup_tern',R,('@rbtree_lookup','''	RBNode *node = _rbtree_find_node(tree, key, false);

	if(!node)
	{
		return NULL;
	}

	RBTreePair *pair = &tree->pair;

	pair->node = node;

	return pair;
'''))
c('r_iter_reinit',R,('@rbtree_iter_init','''	memset(iter, 0, sizeof(RBTreeIter));
	rbtree_iter_reuse(tree, iter);
'''))
c('r_reuse_free',R,('@rbtree_iter_reuse','''	size_t required = tree->count + 1;

	iter->tree = tree;
	iter->sp = NULL;
	iter->finished = tree->root == NULL;

	if(!iter->finished && iter->stack_size < required)
	{
		free(iter->stack);

		iter->stack = (RBTreeIterStackItem *)malloc(required * sizeof(RBTreeIterStackItem));

		if(!iter->stack)
		{
			perror("malloc()");
			abort();
		}

		iter->stack_size = required;
	}
'''))
c('r_ins_red_return',R,('@_rbtree_insert_case2_to_6','''	RBNode **sp = tree->sp;
	RBNode *node = sp[0];
	RBNode *parent = sp[-1];

	if(_rbnode_is_black(parent))
	{
		return;
	}

	RBNode *grandparent = sp[-2];
	bool left = parent == grandparent->left;
	RBNode *uncle = left ? grandparent->right : grandparent->left;

	if(!_rbnode_is_black(uncle))
	{
		grandparent->black = 0;
		parent->black = uncle->black = 1;
		tree->sp = sp - 2;
		_rbtree_insert_case1(tree);

		return;
	}

	if(left && node == parent->right)
	{
		_rbnode_rotate_left(tree, parent, grandparent);
		sp[-1] = node;
		sp[0] = node->left;
	}
	else if(!left && node == parent->left)
	{
		_rbnode_rotate_right(tree, parent, grandparent);
		sp[-1] = node;
		sp[0] = node->right;
	}

	RBNode *above = sp - tree->stack >= 3 ? sp[-3] : NULL;

	grandparent->black = 0;
	sp[-1]->black = 1;

	if(left)
	{
		_rbnode_rotate_right(tree, grandparent, above);
	}
	else
	{
		_rbnode_rotate_left(tree, grandparent, above);
	}

	sp[-2] = sp[-1];
	sp[-1] = sp[0];
	tree->sp = sp - 1;
'''))
c('p_ptr_calloc',P,('@_memory_pool_create_ptr_block','''	struct _MemoryPtrBlock *block = (struct _MemoryPtrBlock *)calloc(1, sizeof(struct _MemoryPtrBlock));

	if(block == NULL)
	{
		perror("calloc()");
		abort();
	}

	block->items = (void **)calloc(pool->block_size, sizeof(void *));

	if(block->items == NULL)
	{
		perror("calloc()");
		abort();
	}

	return block;
'''))
c('p_new_order',P,('@memory_pool_new','''	MemoryPool *pool = (MemoryPool *)calloc(1, sizeof(MemoryPool));

	if(!pool)
	{
		perror("calloc()");
		abort();
	}

	((Pool *)pool)->alloc = _memory_pool_alloc;
	((Pool *)pool)->free = _memory_pool_free;
	pool->block_size = block_size;
	pool->item_size = item_size;
	pool->block = _memory_pool_create_block(pool);

	return pool;
'''))
c('a_init_order',AS,('@assoc_array_init','''	const size_t size = 8;
	void **keys = (void **)calloc(size, sizeof(void *));
	void **values = (void **)calloc(size, sizeof(void *));

	if(!keys || !values)
	{
		perror("calloc()");
		abort();
	}

	memset(array, 0, sizeof(AssocArray));
	array->compare_keys = compare_keys;
	array->free_key = free_key;
	array->free_value = free_value;
	array->size = size;
	array->keys = keys;
	array->values = values;
	array->pair.array = array;
'''))
c('a_pair_swap',AS,('@assoc_array_pair_set_value','''	AssocArray *array = (AssocArray *)pair->array;
	void **slot = array->values + pair->offset;
	void *old = *slot;

	*slot = value;

	if(old && array->free_value)
	{
		array->free_value(old);
	}
'''))
c('a_clear_down',AS,('@_assoc_array_free_memory','''	for(size_t i = array->count; i-- > 0;)
	{
		if(array->free_value && array->values[i])
		{
			array->free_value(array->values[i]);
		}

		if(array->free_key)
		{
			array->free_key(array->keys[i]);
		}
	}
'''))
c('a_iter_next',AS,('@assoc_array_iter_next','''	iter->offset += 1;

	if((size_t)iter->offset >= iter->array->count)
	{
		return false;
	}

	return true;
'''))
c('a_exists',AS,('@assoc_array_key_exists','''	ssize_t offset = 0;

	if(array->count == 0)
	{
		return false;
	}

	return _assoc_array_binary_search(array->compare_keys, array->keys, array->count, key, &offset) == 0;
'''))
c('b_init_literal',B,('@buffer_init','''	*buf = (Buffer){ .max_size = max_size, .msize = 64, .valid = true };
	buf->data = (char *)malloc(64);

	if(!buf->data)
	{
		perror("malloc()");
		abort();
	}
'''))
c('b_init_calloc',B,('@buffer_init','''	char *data = (char *)calloc(64, 1);

	if(!data)
	{
		perror("calloc()");
		abort();
	}

	buf->data = data;
	buf->len = 0;
	buf->msize = 64;
	buf->max_size = max_size;
	buf->valid = true;
'''))
c('q_trylock',Q,('@_async_queue_try_lock','''	int rc = pthread_mutex_lock(&queue->mutex);

	if(rc != 0)
	{
		err(rc, "pthread_mutex_lock()");
		return false;
	}

	return true;
'''))
c('q_init_order',Q,('@async_queue_init','''	PTHREAD_CRITICAL_CALL(pthread_cond_init, &queue->cond, NULL);
	PTHREAD_CRITICAL_CALL(pthread_mutex_init, &queue->mutex, NULL);

	queue->waiting = 0;
	queue_init(&queue->queue, compare, free, pool);
'''))
c('q_free_order',Q,('@async_queue_free','''	PTHREAD_CALL(pthread_cond_destroy, &queue->cond);
	PTHREAD_CALL(pthread_mutex_destroy, &queue->mutex);

	queue_free(&queue->queue);
'''))
c('q_clear_swap',Q,('@async_queue_clear','''	PTHREAD_CRITICAL_CALL(pthread_mutex_lock, &queue->mutex);

	while(queue->queue.count)
	{
		void *data = NULL;

		queue_pop(&queue->queue, &data);

		if(data && queue->queue.free)
		{
			queue->queue.free(data);
		}
	}

	PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
'''))
c('q_push_local',Q,('@async_queue_push','''	PTHREAD_CRITICAL_CALL(pthread_mutex_lock, &queue->mutex);

	bool wake = queue->waiting > 0;

	queue_push(&queue->queue, data);

	PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);

	if(wake)
	{
		PTHREAD_CALL(pthread_cond_signal, &queue->cond);
	}
'''))
