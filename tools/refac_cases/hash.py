H=['hashtable_*','vf_hashtable*']; U='hashtable.c'
CASES={
'resize_simple':(U,['hashtable_set'],[('''if(table->buckets[index])
			{
				iter->next = table->buckets[index];
				table->buckets[index] = iter;
			}
			else
			{
				iter->next = NULL;
				table->buckets[index] = iter;
			}''','iter->next = table->buckets[index];\ntable->buckets[index] = iter;')]),
'find_for':(U,['hashtable_set','hashtable_lookup','hashtable_key_exists'],[('''struct _Bucket *iter = head;
	struct _Bucket *item = NULL;

	while(iter && !item)
	{
		if(table->compare_keys(key, iter->key))
		{
			item = iter;
		}

		iter = iter->next;
	}

	return item;''','''for(struct _Bucket *iter = head; iter; iter = iter->next)
	{ if(table->compare_keys(key, iter->key)) { return iter; } }
	return NULL;''')]),
'remove_pp':(U,['hashtable_remove'],[('''struct _Bucket *iter;
	size_t index = HASHTABLE_INDEX(table, key);

	if((iter = table->buckets[index]))
	{
		struct _Bucket *prev = NULL;
		bool removed = false;

		while(iter && !removed)
		{
			if(table->compare_keys(iter->key, key))
			{
				if(table->free_key)
				{
					table->free_key(iter->key);
				}

				if(table->free_value && iter->data)
				{
					table->free_value(iter->data);
				}

				if(prev)
				{
					prev->next = iter->next;
				}
				else
				{
					table->buckets[index] = iter->next;
				}

				table->pool->free(table->pool, iter);
				--table->count;

				removed = true;
			}
			else
			{
				prev = iter;
				iter = iter->next;
			}
		}
	}''','''struct _Bucket **ptr = &table->buckets[HASHTABLE_INDEX(table, key)];
	while(*ptr)
	{
		struct _Bucket *cur = *ptr;
		if(table->compare_keys(cur->key, key))
		{
			*ptr = cur->next;
			if(table->free_key) table->free_key(cur->key);
			if(table->free_value && cur->data) table->free_value(cur->data);
			table->pool->free(table->pool, cur);
			--table->count;
			break;
		}
		ptr = &cur->next;
	}''')]),
'free_helper':(U,['hashtable_remove','hashtable_free','hashtable_clear','hashtable_destroy'],[('''static void
_hashtable_free_memory(HashTable *table)''','''static void _free_entry(const HashTable *table, struct _Bucket *b)
{
	if(table->free_key) { table->free_key(b->key); }
	if(table->free_value && b->data) { table->free_value(b->data); }
}
static void
_hashtable_free_memory(HashTable *table)'''),('''if(table->free_key)
					{
						table->free_key(iter->key);
					}

					if(table->free_value && iter->data)
					{
						table->free_value(iter->data);
					}

					iter = iter->next;''','_free_entry(table, iter); iter = iter->next;'),('''if(table->free_key)
				{
					table->free_key(iter->key);
				}

				if(table->free_value && iter->data)
				{
					table->free_value(iter->data);
				}

				if(prev)''','_free_entry(table, iter);\nif(prev)')]),
'set_split':(U,['hashtable_set'],[('''if(item)
	{
		result = HASHTABLE_INSERT_RESULT_REPLACED;

		if(overwrite_key)
		{
			if(table->free_key)
			{
				table->free_key(item->key);
			}

			item->key = key;
		}

		if(table->free_value && item->data)
		{
			table->free_value(item->data);
		}

		item->data = value;
	}''','if(item)\n{ _replace(table, item, key, value, overwrite_key); return HASHTABLE_INSERT_RESULT_REPLACED; }\n'),('''HashTableInsertResult
hashtable_set(''','''static void _replace(HashTable *table, struct _Bucket *item, void *key, void *value, bool overwrite_key)
{
	void *old = item->data;
	if(overwrite_key)
	{
		if(table->free_key) table->free_key(item->key);
		item->key = key;
	}
	item->data = value;
	if(old && table->free_value) table->free_value(old);
}
HashTableInsertResult
hashtable_set(''')]),
'free_forfor':(U,['hashtable_free','hashtable_clear','hashtable_destroy'],[('''struct _Bucket *iter;

			if((iter = table->buckets[i]))
			{
				while(iter)
				{
					if(table->free_key)
					{
						table->free_key(iter->key);
					}

					if(table->free_value && iter->data)
					{
						table->free_value(iter->data);
					}

					iter = iter->next;
				}
			}''','''for(struct _Bucket *iter = table->buckets[i]; iter; iter = iter->next)
				{
					if(table->free_key)
					{
						table->free_key(iter->key);
					}

					if(table->free_value && iter->data)
					{
						table->free_value(iter->data);
					}
				}''')]),
'iternext_for':(U,['hashtable_iter*'],[('''bool success = false;

	while(!success && !iter->finished)
	{
		if(iter->liter)
		{
			iter->liter = iter->liter->next;
			success = iter->liter != NULL;
		}
		else
		{
			success = _hashtable_iter_get_next_bucket(iter);
			iter->finished = !success;
		}
	}

	return success;''','''if(iter->finished) return false;
	if(iter->liter && iter->liter->next) { iter->liter = iter->liter->next; return true; }
	if(_hashtable_iter_get_next_bucket(iter)) return true;
	iter->finished = true;
	return false;''')]),
'iterbucket':(U,['hashtable_iter*'],[('''iter->liter = NULL;

	while(!iter->liter && iter->offset < iter->table->size)
	{
		iter->liter = iter->table->buckets[iter->offset++];
	}

	return iter->liter != NULL;''','''const HashTable *table = iter->table;
	for(; iter->offset < table->size; ++iter->offset)
	{
		if(table->buckets[iter->offset]) { iter->liter = table->buckets[iter->offset]; ++iter->offset; return true; }
	}
	iter->liter = NULL;
	return false;''')]),
'clear_loop':(U,['hashtable_clear'],[('memset(table->buckets, 0, sizeof(struct _Bucket *) * table->size);','for(size_t i = 0; i < table->size; ++i) { table->buckets[i] = NULL; }'),('table->count = 0;\n\n\t_hashtable_free_memory(table);','_hashtable_free_memory(table);\ntable->count = 0;\n')]),
'resize_down':(U,['hashtable_set'],[('for(size_t i = 0; i < old_size; ++i)','for(size_t i = old_size; i-- > 0;)')]),
'resize_helper':(U,['hashtable_set'],[('static void\n_hashtable_resize(','''static void _move(HashTable *table, struct _Bucket *iter)
{
	struct _Bucket **slot = &table->buckets[HASHTABLE_INDEX(table, iter->key)];
	iter->next = *slot;
	*slot = iter;
}
static void
_hashtable_resize('''),('''size_t index = HASHTABLE_INDEX(table, iter->key);

			if(table->buckets[index])
			{
				iter->next = table->buckets[index];
				table->buckets[index] = iter;
			}
			else
			{
				iter->next = NULL;
				table->buckets[index] = iter;
			}''','_move(table, iter);')]),
'free_local':(U,['hashtable_free','hashtable_clear','hashtable_destroy'],[('if(table->free_key || table->free_value)\n\t{','FreeFunc fk = table->free_key; FreeFunc fv = table->free_value; if(fk || fv)\n{'),('''if(table->free_key)
					{
						table->free_key(iter->key);
					}

					if(table->free_value && iter->data)
					{
						table->free_value(iter->data);
					}

					iter = iter->next;''','''if(fk) { fk(iter->key); }
if(fv && iter->data) { fv(iter->data); }
iter = iter->next;''')]),
'init_tern':(U,['hashtable_init','hashtable_new'],[('''size_t table_size = HASHTABLE_INITIAL_SIZE;

	if(size != HASHTABLE_AUTO_RESIZE)
	{
		table_size = size;
	}''','bool grow = size == HASHTABLE_AUTO_RESIZE; size_t table_size = grow ? HASHTABLE_INITIAL_SIZE : size;'),('''if(size == HASHTABLE_AUTO_RESIZE)
	{
		table->grow = true;
		table->sizeptr = PRIMES;
	}
	else
	{
		table->grow = false;
		table->sizeptr = NULL;
	}''','table->grow = grow; table->sizeptr = grow ? PRIMES : NULL;')]),
}
