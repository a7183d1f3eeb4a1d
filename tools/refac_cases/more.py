C={}; CASES=C
L=('list.c',['list_*']); S=('slist.c',['slist_*']); B=('buffer.c',['buffer_*']); AS=('assocarray.c',['assoc_*'])
H=('hashtable.c',['hashtable_init','hashtable_free','hashtable_clear','hashtable_remove','hashtable_lookup','hashtable_key_exists','hashtable_iter*','hashtable_set'])
R=('rbtree.c',['rbtree_*','_rb*']); P=('pool.c',['memory_pool*','memory_pool.alloc=_memory_pool_alloc','memory_pool.free=_memory_pool_free'])
def c(n,u,*subs): C[n]=(u[0],u[1],list(subs))
# shared unlink helper with out parameter
c('s_unlink_helper',S,('^slist_remove','''static void
_slist_unlink(SList *list, SListItem **link, SListItem *before)
{
	SListItem *item = *link;

	*link = item->next;

	if(!*link)
	{
		list->tail = before;
	}

	--list->count;
	_slist_item_free(list, item);
}

'''),('@slist_remove','''	SListItem *before = NULL;

	for(SListItem **link = &list->head; *link; link = &(*link)->next)
	{
		if(*link == item)
		{
			_slist_unlink(list, link, before);
			return;
		}

		before = *link;
	}
'''),('@slist_remove_by_data','''	SListItem **link = &list->head;
	SListItem *before = NULL;

	while(*link)
	{
		if(list->compare((*link)->data, data) != 0)
		{
			before = *link;
			link = &before->next;
			continue;
		}

		_slist_unlink(list, link, before);

		if(!remove_all)
		{
			break;
		}
	}
'''))
c('s_find_forever',S,('@_slist_find','''	for(SListItem *iter = offset ? offset : list->head; ; iter = iter->next)
	{
		if(!iter || !list->compare(iter->data, data))
		{
			return iter;
		}
	}
'''))
c('l_link_helper',L,('^list_append','''static void
_list_link(List *list, ListItem *before, ListItem *item, ListItem *behind)
{
	item->prev = before;
	item->next = behind;
	*(before ? &before->next : &list->head) = item;
	*(behind ? &behind->prev : &list->tail) = item;
	++list->count;
}

'''),('@list_append','''	if(list->count == SIZE_MAX)
	{
		return NULL;
	}

	ListItem *item = _list_item_new(list->pool, data);

	_list_link(list, list->tail, item, NULL);

	return item;
'''),('@list_prepend','''	if(list->count == SIZE_MAX)
	{
		return NULL;
	}

	ListItem *item = _list_item_new(list->pool, data);

	_list_link(list, NULL, item, list->head);

	return item;
'''),('@_list_prepend_new_sorted','''	ListItem *behind = list->head;

	while(behind && list->compare(behind->data, data) < 0)
	{
		behind = behind->next;
	}

	ListItem *item = _list_item_new(list->pool, data);

	_list_link(list, behind ? behind->prev : list->tail, item, behind);

	return item;
'''))
c('l_sorted_back',L,('@list_insert_sorted','''	if(list->count == SIZE_MAX)
	{
		return NULL;
	}

	ListItem *before = list->tail;

	while(before && list->compare(before->data, data) > 0)
	{
		before = before->prev;
	}

	ListItem *item = _list_item_new(list->pool, data);

	item->prev = before;
	item->next = before ? before->next : list->head;

	if(item->next)
	{
		item->next->prev = item;
	}
	else
	{
		list->tail = item;
	}

	if(before)
	{
		before->next = item;
	}
	else
	{
		list->head = item;
	}

	++list->count;

	return item;
'''),('static ListItem * _list_prepend_new_sorted(List *list, void *data)','ListItem * _list_prepend_new_sorted(List *list, void *data);\nListItem * _list_prepend_new_sorted(List *list, void *data)'))
c('l_find_half',L,('@_list_find','''	ListItem *front = offset ? offset : list->head;
	ListItem *back = list->tail;

	if(!front)
	{
		return NULL;
	}

	for(;;)
	{
		if(!list->compare(front->data, data))
		{
			return front;
		}

		if(front == back)
		{
			return NULL;
		}

		if(!list->compare(back->data, data))
		{
			return back;
		}

		if(front->next == back)
		{
			return NULL;
		}

		front = front->next;
		back = back->prev;
	}
'''))
# hash
c('h_slot',H,('^_hashtable_find_bucket','''static struct _Bucket **
_hashtable_slot(const HashTable *table, const void *key)
{
	return table->buckets + HASHTABLE_INDEX(table, key);
}

'''),('@hashtable_key_exists','''	return _hashtable_find_bucket(table, *_hashtable_slot(table, key), key) != NULL;
'''),('@hashtable_lookup','''	struct _Bucket *item = _hashtable_find_bucket(table, *_hashtable_slot(table, key), key);

	if(!item)
	{
		return NULL;
	}

	table->pair.bucket = item;

	return &table->pair;
'''),('@hashtable_remove','''	struct _Bucket **link = _hashtable_slot(table, key);

	while(*link && !table->compare_keys((*link)->key, key))
	{
		link = &(*link)->next;
	}

	struct _Bucket *item = *link;

	if(!item)
	{
		return;
	}

	*link = item->next;
	--table->count;

	if(table->free_key)
	{
		table->free_key(item->key);
	}

	if(table->free_value && item->data)
	{
		table->free_value(item->data);
	}

	table->pool->free(table->pool, item);
'''))
c('h_set_early',H,('@hashtable_set','''	if(table->grow && table->count > table->size)
	{
		_hashtable_resize(table);
	}

	struct _Bucket **slot = &table->buckets[HASHTABLE_INDEX(table, key)];
	struct _Bucket *item = _hashtable_find_bucket(table, *slot, key);

	if(!item)
	{
		if(table->count == SIZE_MAX)
		{
			fprintf(stderr, "%s(): integer overflow.\\n", __func__);
			return HASHTABLE_INSERT_RESULT_FAILED;
		}

		item = (struct _Bucket *)table->pool->alloc(table->pool);
		*item = (struct _Bucket){ .key = key, .data = value, .next = *slot };
		*slot = item;
		++table->count;

		return HASHTABLE_INSERT_RESULT_NEW;
	}

	void *old = item->data;

	item->data = value;

	if(table->free_value && old)
	{
		table->free_value(old);
	}

	if(overwrite_key)
	{
		if(table->free_key)
		{
			table->free_key(item->key);
		}

		item->key = key;
	}

	return HASHTABLE_INSERT_RESULT_REPLACED;
'''))
c('h_resize_pop',H,('@_hashtable_resize','''	struct _Bucket **old = table->buckets;
	size_t n = table->size;

	++table->sizeptr;
	table->size = *table->sizeptr;

	if(!table->size || table->size > SIZE_MAX / sizeof(struct _Bucket *))
	{
		fprintf(stderr, "%s(): integer overflow.\\n", __func__);
		abort();
	}

	table->buckets = (struct _Bucket **)calloc(table->size, sizeof(struct _Bucket *));

	if(!table->buckets)
	{
		perror("calloc()");
		abort();
	}

	for(size_t i = 0; i < n; ++i)
	{
		while(old[i])
		{
			struct _Bucket *item = old[i];
			struct _Bucket **slot = &table->buckets[HASHTABLE_INDEX(table, item->key)];

			old[i] = item->next;
			item->next = *slot;
			*slot = item;
		}
	}

	free(old);
'''))
c('h_iter_return',H,('@hashtable_iter_next','''	while(!iter->finished)
	{
		if(iter->liter)
		{
			iter->liter = iter->liter->next;

			if(iter->liter)
			{
				return true;
			}
		}

		if(_hashtable_iter_get_next_bucket(iter))
		{
			return true;
		}

		iter->finished = true;
	}

	return false;
'''))
c('h_free_entry',H,('^_hashtable_free_memory','''static void
_hashtable_free_entry(const HashTable *table, const struct _Bucket *item)
{
	if(table->free_value && item->data)
	{
		table->free_value(item->data);
	}

	if(table->free_key)
	{
		table->free_key(item->key);
	}
}

'''),('@_hashtable_free_memory','''	for(size_t i = 0; i < table->size; ++i)
	{
		for(struct _Bucket *item = table->buckets[i]; item; item = item->next)
		{
			_hashtable_free_entry(table, item);
		}
	}
'''))
# rbtree
c('r_lookup_loop',R,('@_rbtree_find_node','''	RBNode *node = tree->root;
	int32_t order = 1;

	while(node)
	{
		if(build_stack)
		{
			_rbtree_stack_push(tree, node);
		}

		order = tree->compare_keys(key, node->key);

		if(order == 0)
		{
			break;
		}

		node = order > 0 ? node->right : node->left;
	}

	return node;
'''))
c('r_insert_return',R,('@_rbtree_insert_child','''	RBNode *node = tree->root;

	tree->sp = NULL;

	for(;;)
	{
		if(!_rbtree_stack_push(tree, node))
		{
			return RBTREE_INSERT_RESULT_FAILED;
		}

		int32_t cmp = tree->compare_keys(key, node->key);

		if(cmp == 0)
		{
			_rbtree_replace_node(tree, node, key, value, overwrite_key);

			return RBTREE_INSERT_RESULT_REPLACED;
		}

		if(tree->count == SIZE_MAX)
		{
			fprintf(stderr, "%s(): integer overflow.\\n", __func__);

			return RBTREE_INSERT_RESULT_FAILED;
		}

		RBNode **child = (cmp < 0) ? &node->left : &node->right;

		if(!*child)
		{
			*child = _rbnode_create_new(tree->pool, key, value, 0, NULL, NULL);

			if(!_rbtree_stack_push(tree, *child))
			{
				return RBTREE_INSERT_RESULT_FAILED;
			}

			_rbtree_insert_case2_to_6(tree);
			++tree->count;

			return RBTREE_INSERT_RESULT_NEW;
		}

		node = *child;
	}
'''))
c('r_free_entry',R,('^_rbtree_destroy_node','''static void
_rbtree_release(RBTree *tree, void *key, void *value)
{
	if(tree->free_value && value)
	{
		tree->free_value(value);
	}

	if(tree->free_key)
	{
		tree->free_key(key);
	}
}

static void
_rbtree_free_node(RBTree *tree, RBNode *node)
{
	Pool *pool = tree->pool;

	if(!pool)
	{
		free(node);
	}
	else
	{
		pool->free(pool, node);
	}
}

'''),('@_rbtree_destroy_node','''	RBNode *left = node->left;
	RBNode *right = node->right;

	_rbtree_release(tree, node->key, node->value);
	_rbtree_free_node(tree, node);

	if(right)
	{
		_rbtree_destroy_node(tree, right);
	}

	if(left)
	{
		_rbtree_destroy_node(tree, left);
	}
'''))
c('r_remove_late',R,('''	--tree->count;

	if(tree->free_key)
	{
		tree->free_key(node->key);
	}

	if(tree->free_value && node->value)
	{
		tree->free_value(node->value);
	}
''','''	void *key_ = node->key;
	void *value_ = node->value;
'''),('''	if(tree->pool)
	{
		tree->pool->free(tree->pool, node);
	}
	else
	{
		free(node);
	}

	return true;''','''	if(tree->pool)
	{
		tree->pool->free(tree->pool, node);
	}
	else
	{
		free(node);
	}

	if(value_ && tree->free_value)
	{
		tree->free_value(value_);
	}

	if(tree->free_key)
	{
		tree->free_key(key_);
	}

	tree->count -= 1;

	return true;'''))
c('r_rotate_dir',R,('@_rbnode_rotate_left','''	_rbnode_rotate(tree, node, parent, true);
'''),('@_rbnode_rotate_right','''	_rbnode_rotate(tree, node, parent, false);
'''),('^_rbnode_rotate_left','''static void
_rbnode_rotate(RBTree *tree, RBNode *node, RBNode *parent, bool left)
{
	RBNode **down = left ? &node->right : &node->left;
	RBNode *child = *down;
	RBNode **up = left ? &child->left : &child->right;

	_rbnode_replace(tree, node, parent, child);
	*down = *up;
	*up = node;
}

'''))
c('r_sibling_fn',R,('^_rbtree_remove_case3_to_6','''static RBNode *
_rbnode_sibling(const RBNode *parent, const RBNode *node)
{
	return parent->right == node ? parent->left : parent->right;
}

static RBNode *
_rbtree_grandparent(const RBTree *tree)
{
	return tree->sp >= tree->stack + 2 ? *(tree->sp - 2) : NULL;
}

'''),('@_rbtree_remove_case2','''	RBNode *node = *tree->sp;
	RBNode *parent = *(tree->sp - 1);
	RBNode *sibling = _rbnode_sibling(parent, node);

	if(!_rbnode_is_black(sibling))
	{
		RBNode *grandparent = _rbtree_grandparent(tree);

		sibling->black = 1;
		parent->black = 0;

		if(parent->left == node)
		{
			_rbnode_rotate_left(tree, parent, grandparent);
		}
		else
		{
			_rbnode_rotate_right(tree, parent, grandparent);
		}

		*(tree->sp - 1) = sibling;
		*tree->sp = parent;
		_rbtree_stack_push(tree, node);
	}

	_rbtree_remove_case3_to_6(tree);
'''))
c('r_iter_local',R,('@rbtree_iter_next','''	if(iter->finished)
	{
		return false;
	}

	if(!iter->sp)
	{
		iter->sp = iter->stack;
		iter->sp->node = iter->tree->root;
		iter->sp->state = 0;

		return true;
	}

	RBTreeIterStackItem *sp = iter->sp;

	for(;;)
	{
		if(sp->state < 2)
		{
			RBNode *child = sp->state ? sp->node->right : sp->node->left;

			++sp->state;
			++sp;
			sp->node = child;
			sp->state = 0;
		}
		else
		{
			if(sp->state == 2)
			{
				++sp->state;
			}

			--sp;
		}

		if(sp < iter->stack)
		{
			iter->sp = sp;
			iter->finished = true;

			return false;
		}

		if(!sp->node)
		{
			--sp;
		}
		else if(!sp->state)
		{
			iter->sp = sp;

			return true;
		}
	}
'''))
# buffer, pool, assoc
c('b_grow_for',B,('@_buffer_new_realloc_size','''	size_t size;

	for(size = from; size < to; size = size * 2 < from ? to : size * 2)
	{
	}

	return size;
'''))
c('b_reserve',B,('^buffer_fill','''static void
_buffer_reserve(Buffer *buf, size_t len)
{
	if(buf->msize - buf->len >= len)
	{
		return;
	}

	buf->msize = _buffer_new_realloc_size(buf->msize, buf->msize + len);

	if(!(buf->data = (char *)realloc(buf->data, buf->msize)))
	{
		perror("realloc()");
		abort();
	}
}

'''),('@buffer_fill','''	if(!buf->valid)
	{
		return false;
	}

	if(buf->max_size - buf->len >= len)
	{
		_buffer_reserve(buf, len);
		memcpy(&buf->data[buf->len], data, len);
		buf->len += len;

		return true;
	}

	fprintf(stderr, "%s(): buffer exceeds allowed maximum size.\\n", __func__);

	return buf->valid = false;
'''))
c('b_line_index',B,('@buffer_read_line','''	if(!buf->valid)
	{
		return false;
	}

	size_t i = 0;

	while(i < buf->len && buf->data[i] != '\\n')
	{
		++i;
	}

	if(i == buf->len)
	{
		return false;
	}

	_buffer_copy_to_string(buf, i, dst, len);
	++i;
	memmove(buf->data, buf->data + i, buf->len - i);
	buf->len -= i;

	return true;
'''))
c('p_unlink',P,('''			pool->free_block = pblock->next;

			free(pblock->items);
			free(pblock);''','''			free(pblock->items);
			pool->free_block = pool->free_block->next;
			free(pblock);'''))
c('p_alloc_flat',P,('@_memory_pool_alloc','''	MemoryPool *pool = (MemoryPool *)alloc;

	if(pool->free_block)
	{
		return _memory_pool_try_get_detached_item(pool);
	}

	if(pool->block->offset >= pool->block_size)
	{
		return _memory_pool_get_item_from_new_block(pool);
	}

	return _memory_pool_try_get_current_item(pool);
'''))
c('as_search_ret',AS,('static int32_t _assoc_array_binary_search(','static int32_t _assoc_array_binary_search('))
