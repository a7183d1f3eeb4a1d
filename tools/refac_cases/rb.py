U='rbtree.c'; A=['rbtree_*','_rb*','vf_rb*']
C={}
CASES=C
C['find_rec_style']=(U,A,[('''while(node)
	{
		if(build_stack)
		{
			_rbtree_stack_push(tree, node);
		}

		int32_t result = tree->compare_keys(key, node->key);

		if(!result)
		{
			return node;
		}
		else
		{
			if(result < 0)
			{
				node = node->left;
			}
			else
			{
				node = node->right;
			}
		}
	}

	return NULL;''','''for(; node; )
	{
		int32_t result;
		if(build_stack) { _rbtree_stack_push(tree, node); }
		result = tree->compare_keys(key, node->key);
		if(result == 0) { break; }
		node = (result < 0) ? node->left : node->right;
	}

	return node;''')])
C['iter_loop']=(U,A,[('''if(iter->sp < iter->stack)
			{
				iter->finished = true;

				return false;
			}

			if(iter->sp->node)
			{
				if(iter->sp->state == 0)
				{
					return true;
				}
			}
			else
			{
				--iter->sp;
			}''','''if(iter->sp < iter->stack)
			{
				iter->finished = true;
				return false;
			}
			if(!iter->sp->node) { --iter->sp; continue; }
			if(iter->sp->state == 0) { return true; }''')])
C['iter_helper']=(U,A,[('^rbtree_iter_next','''static void
_iter_descend(RBTreeIter *iter, RBNode *node)
{
	++iter->sp;
	iter->sp->node = node;
	iter->sp->state = 0;
}

'''),('''++iter->sp->state;
				++iter->sp;
				iter->sp->node = (iter->sp - 1)->node->left;
				iter->sp->state = 0;''','''iter->sp->state = 1;
				_iter_descend(iter, iter->sp->node->left);'''),('''++iter->sp->state;
				++iter->sp;
				iter->sp->node = (iter->sp - 1)->node->right;
				iter->sp->state = 0;''','''iter->sp->state = 2;
				_iter_descend(iter, iter->sp->node->right);''')])
C['iter_switch']=(U,A,[('''if(iter->sp->state == 0)
			{
				++iter->sp->state;
				++iter->sp;
				iter->sp->node = (iter->sp - 1)->node->left;
				iter->sp->state = 0;
			}
			else if(iter->sp->state == 1)
			{
				++iter->sp->state;
				++iter->sp;
				iter->sp->node = (iter->sp - 1)->node->right;
				iter->sp->state = 0;
			}
			else if(iter->sp->state == 2)
			{
				++iter->sp->state;
				--iter->sp;
			}''','''RBTreeIterStackItem *top = iter->sp;
			switch(top->state++)
			{
				case 0:
					top[1].node = top->node->left; top[1].state = 0; iter->sp = top + 1;
					break;
				case 1:
					top[1].node = top->node->right; top[1].state = 0; iter->sp = top + 1;
					break;
				default:
					--iter->sp;
			}''')])
C['iter_early']=(U,A,[('''if(iter->finished)
	{
		return false;
	}

	if(iter->sp)''','''if(iter->finished)
	{
		return false;
	}

	if(!iter->sp)
	{
		iter->sp = iter->stack;
		iter->sp->state = 0;
		iter->sp->node = iter->tree->root;

		return true;
	}

	if(iter->sp)''')])
C['pool_helper']=(U,A,[('^_rbtree_destroy_node','''static void
_free_node(RBTree *tree, RBNode *node)
{
	if(tree->pool) { tree->pool->free(tree->pool, node); } else { free(node); }
}

static void
_free_pair(RBTree *tree, RBNode *node)
{
	if(tree->free_value && node->value) { tree->free_value(node->value); }
	if(tree->free_key) { tree->free_key(node->key); }
}

'''),('''if(tree->free_key)
	{
		tree->free_key(node->key);
	}

	if(tree->free_value && node->value)
	{
		tree->free_value(node->value);
	}

	if(tree->pool)
	{
		tree->pool->free(tree->pool, node);
	}
	else
	{
		free(node);
	}
}

void
rbtree_destroy''','''_free_pair(tree, node); _free_node(tree, node);
}

void
rbtree_destroy'''),('''if(tree->pool)
	{
		tree->pool->free(tree->pool, node);
	}
	else
	{
		free(node);
	}

	return true;''','''_free_node(tree, node);

	return true;''')])
C['destroy_null']=(U,A,[('@_rbtree_destroy_node','''	if(!node) { return; }
	RBNode *l = node->left;
	RBNode *r = node->right;
	_rbtree_destroy_node(tree, r);
	if(tree->free_key) { tree->free_key(node->key); }
	if(tree->free_value && node->value) { tree->free_value(node->value); }
	if(tree->pool) { tree->pool->free(tree->pool, node); } else { free(node); }
	_rbtree_destroy_node(tree, l);'''),('@rbtree_free','''	_rbtree_destroy_node(tree, tree->root);
	free(tree->stack);''')])
C['destroy_loop']=(U,A,[('@_rbtree_destroy_node','''	while(node)
	{
		RBNode *r = node->right;
		if(node->left) { _rbtree_destroy_node(tree, node->left); }
		if(tree->free_key) { tree->free_key(node->key); }
		if(tree->free_value && node->value) { tree->free_value(node->value); }
		if(tree->pool) { tree->pool->free(tree->pool, node); } else { free(node); }
		node = r;
	}''')])
C['clear_order']=(U,A,[('@rbtree_clear','''	RBNode *root = tree->root;

	tree->count = 0;
	tree->root = NULL;
	tree->sp = NULL;

	if(root)
	{
		_rbtree_destroy_node(tree, root);
	}''')])
C['push_index']=(U,A,[('@_rbtree_stack_push','''	size_t depth = tree->sp ? (size_t)(tree->sp - tree->stack) + 1 : 0;

	if(depth == tree->stack_size)
	{
		if(tree->stack_size > (SSIZE_MAX / sizeof(RBNode *)) / 2)
		{
			fprintf(stderr, "%s(): integer overflow.\\n", __func__);
			abort();
		}

		tree->stack_size *= 2;
		tree->stack = (RBNode **)realloc(tree->stack, sizeof(RBNode *) * tree->stack_size);

		if(!tree->stack)
		{
			perror("realloc()");
			abort();
		}
	}

	tree->stack[depth] = node;
	tree->sp = tree->stack + depth;

	return true;''')])
C['insert_merged']=(U,A,[('''while(result == -1)
	{
		if(_rbtree_stack_push(tree, node))
		{''','''for(;;)
	{
		if(result != -1) { break; }
		if(_rbtree_stack_push(tree, node))
		{''')])
C['insert_ifs']=(U,A,[('''RBNode **child = (cmp < 0) ? &node->left : &node->right;

				if(*child)
				{
					node = *child;
				}
				else
				{
					result = RBTREE_INSERT_RESULT_NEW;

					*child = _rbnode_create_new(tree->pool, key, value, 0, NULL, NULL);

					if(_rbtree_stack_push(tree, *child))''','''RBNode *child = (cmp < 0) ? node->left : node->right;

				if(child)
				{
					node = child;
				}
				else
				{
					result = RBTREE_INSERT_RESULT_NEW;

					child = _rbnode_create_new(tree->pool, key, value, 0, NULL, NULL);
					if(cmp < 0) { node->left = child; } else { node->right = child; }

					if(_rbtree_stack_push(tree, child))''')])
C['replace_null']=(U,A,[('@_rbnode_replace','''	RBNode **link = &tree->root;

	if(parent)
	{
		link = (old_node == parent->left) ? &parent->left : &parent->right;
	}

	*link = new_node;''')])
C['rotate_swap']=(U,A,[('@_rbnode_rotate_left','''	RBNode *right = node->right;

	node->right = right->left;
	right->left = node;
	_rbnode_replace(tree, node, parent, right);''')])
C['black_func']=(U,A,[('''#define _rbnode_is_black(n) (n == NULL ? 1 : n->black)''','''static bool
_rbnode_is_black(const RBNode *n)
{
	return !n || n->black;
}''')])
C['max_for']=(U,A,[('@_rbtree_find_max_node','''	for(;;)
	{
		_rbtree_stack_push(tree, node);

		if(!node->right)
		{
			break;
		}

		node = node->right;
	}

	return node;''')])
C['max_do']=(U,A,[('@_rbtree_find_max_node','''	RBNode *max;

	do
	{
		max = node;
		_rbtree_stack_push(tree, max);
		node = max->right;
	} while(node);

	return max;''')])
C['remove_sibling']=(U,A,[('^_rbtree_remove_case3_to_6','''static RBNode *
_sibling(RBNode *parent, const RBNode *node)
{
	return parent->left == node ? parent->right : parent->left;
}

'''),('''if(parent->right == node)
	{
		sibling = parent->left;
	}
	else
	{
		sibling = parent->right;
	}

	assert(sibling != NULL);''','''sibling = (parent->right == node) ? parent->left : parent->right;
'''),('''if(parent->right == node)
	{
		sibling = parent->left;
	}
	else
	{
		sibling = parent->right;
	}

	if(!_rbnode_is_black(sibling))''','''sibling = _sibling(parent, node);
	if(!_rbnode_is_black(sibling))''')])
C['remove_fixup_end']=(U,A,[('''if(tree->sp > tree->stack)
	{
		_rbtree_remove_case2(tree);
	}''','''if(tree->sp == tree->stack)
	{
		return;
	}

	_rbtree_remove_case2(tree);''')])
C['remove_count']=(U,A,[('''--tree->count;

	if(tree->free_key)
	{
		tree->free_key(node->key);
	}

	if(tree->free_value && node->value)
	{
		tree->free_value(node->value);
	}

	if(node->left''','''void *okey = node->key;
	void *oval = node->value;

	if(node->left'''),('''if(tree->pool)
	{
		tree->pool->free(tree->pool, node);
	}
	else
	{
		free(node);
	}

	return true;''','''if(tree->pool)
	{
		tree->pool->free(tree->pool, node);
	}
	else
	{
		free(node);
	}

	if(tree->free_key)
	{
		tree->free_key(okey);
	}

	if(tree->free_value && oval)
	{
		tree->free_value(oval);
	}

	tree->count--;

	return true;''')])
C['remove_child']=(U,A,[('''RBNode *child = node->right ? node->right : node->left;''','''RBNode *child = node->left;
	if(!child) { child = node->right; }''')])
C['init_plain']=(U,A,[('@rbtree_init','''	tree->root = NULL;
	tree->sp = NULL;
	tree->count = 0;
	tree->stack_size = RBTREE_INITIAL_BLOCK_SIZE;
	tree->stack = (RBNode **)calloc(tree->stack_size, sizeof(RBNode *));

	if(!tree->stack)
	{
		perror("malloc()");
		abort();
	}

	tree->compare_keys = compare_keys;
	tree->free_key = free_key;
	tree->free_value = free_value;
	tree->pool = pool;
	tree->pair.free_value = free_value;
	tree->pair.node = NULL;''')])
C['case1_loop']=(U,A,[('@_rbtree_insert_case1','''	RBNode *node = *tree->sp;

	if(tree->sp != tree->stack)
	{
		_rbtree_insert_case2_to_6(tree);
		return;
	}

	node->black = 1;''')])
C['case6_merge']=(U,A,[('''if(node == parent->left)
	{
		assert(!_rbnode_is_black(sibling->right));
		sibling->right->black = 1;
		_rbnode_rotate_left(tree, parent, grandparent);
	}
	else
	{
		assert(!_rbnode_is_black(sibling->left));
		sibling->left->black = 1;
		_rbnode_rotate_right(tree, parent, grandparent);
	}''','''if(node != parent->left)
	{
		sibling->left->black = 1;
		_rbnode_rotate_right(tree, parent, grandparent);
		return;
	}

	sibling->right->black = 1;
	_rbnode_rotate_left(tree, parent, grandparent);''')])
C['gp_index']=(U,A,[('''RBNode *grandparent = NULL;

		if(tree->sp >= tree->stack + 2)
		{
			grandparent = *(tree->sp - 2);
		}''','''ptrdiff_t depth = tree->sp - tree->stack;
		RBNode *grandparent = depth >= 2 ? tree->stack[depth - 2] : NULL;''')])
C['key_exists']=(U,A,[('@rbtree_key_exists','''	const RBNode *node = tree->root;

	while(node)
	{
		int32_t r = tree->compare_keys(key, node->key);
		if(r == 0) { return true; }
		node = r > 0 ? node->right : node->left;
	}

	return false;''')])
