U='slist.c'; L='list.c'; A=['slist_*']; B=['list_*']
FREE='''	if(%(l)s->free && item->data)
	{
		%(l)s->free(item->data);
	}
'''
CASES={
's_free_for':(U,A,[('@slist_free','''	assert(list != NULL);
	SListItem *next = NULL;
	for(SListItem *iter = list->head; iter; iter = next)
	{
		next = iter->next;
		_slist_item_free(list, iter);
	}''')]),
's_free_head':(U,A,[('@slist_free','''	assert(list != NULL);
	SListItem *iter = list->head;
	while(iter != NULL)
	{
		SListItem *next = iter->next;
		if(list->free != NULL && iter->data != NULL) { list->free(iter->data); }
		if(!list->pool) { free(iter); } else { list->pool->free(list->pool, iter); }
		iter = next;
	}''')]),
's_free_do':(U,A,[('@slist_free','''	SListItem *iter = list->head;
	if(!iter) { return; }
	do
	{
		SListItem *item = iter;
		iter = iter->next;
		_slist_item_free(list, item);
	} while(iter);''')]),
's_item_new':(U,A,[('@_slist_item_new','''	SListItem *item = (SListItem *)(pool ? pool->alloc(pool) : malloc(sizeof(SListItem)));
	if(!item)
	{
		perror("malloc()");
		abort();
	}
	item->next = NULL;
	item->data = data;

	return item;''')]),
's_append':(U,A,[('@slist_append','''	assert(list != NULL);
	if(list->count == SIZE_MAX) { return NULL; }
	SListItem *item = _slist_item_new(list->pool, data);
	SListItem **slot = list->tail ? &list->tail->next : &list->head;
	*slot = item;
	list->tail = item;
	list->count += 1;
	return item;''')]),
's_prepend':(U,A,[('@slist_prepend','''	assert(list != NULL);
	if(list->count == SIZE_MAX) { return NULL; }
	SListItem *item = _slist_item_new(list->pool, data);
	++list->count;
	item->next = list->head;
	list->head = item;
	if(list->tail == NULL) { list->tail = item; }
	return item;''')]),
's_sorted_prev':(U,A,[('@_slist_prepend_new_sorted','''	SListItem *item = _slist_item_new(list->pool, data);
	SListItem *prev = NULL;
	SListItem *iter = list->head;

	while(iter && list->compare(iter->data, data) < 0)
	{
		prev = iter;
		iter = iter->next;
	}

	item->next = iter;
	if(prev) { prev->next = item; } else { list->head = item; }
	++list->count;
	return item;''')]),
's_sorted_for':(U,A,[('@_slist_prepend_new_sorted','''	SListItem *item = _slist_item_new(list->pool, data);
	SListItem **ptr;
	for(ptr = &list->head; *ptr; ptr = &(*ptr)->next)
	{
		if(list->compare((*ptr)->data, data) >= 0) { break; }
	}
	item->next = *ptr;
	*ptr = item;
	++list->count;
	return item;''')]),
's_sorted_helper':(U,A,[('^_slist_prepend_new_sorted','''static SListItem **
_slist_sorted_slot(SList *list, const void *data)
{
	SListItem **ptr = &list->head;
	while(*ptr && list->compare((*ptr)->data, data) < 0) { ptr = &(*ptr)->next; }
	return ptr;
}
'''),('@_slist_prepend_new_sorted','''	SListItem *item = _slist_item_new(list->pool, data);
	SListItem **ptr = _slist_sorted_slot(list, data);
	item->next = *ptr;
	*ptr = item;
	++list->count;
	return item;''')]),
's_remove_prev':(U,A,[('@slist_remove','''	SListItem *prev = NULL;
	SListItem *iter = list->head;
	while(iter && iter != item) { prev = iter; iter = iter->next; }
	if(iter)
	{
		if(prev) { prev->next = iter->next; } else { list->head = iter->next; }
		if(list->tail == iter) { list->tail = prev; }
		--list->count;
		_slist_item_free(list, iter);
	}''')]),
's_remove_head':(U,A,[('@slist_remove','''	if(list->head == item)
	{
		list->head = item->next;
		if(!list->head) { list->tail = NULL; }
	}
	else
	{
		SListItem *prev = list->head;
		while(prev && prev->next != item) { prev = prev->next; }
		if(!prev) { return; }
		prev->next = item->next;
		if(!item->next) { list->tail = prev; }
	}
	_slist_item_free(list, item);
	--list->count;''')]),
's_rbd_prev':(U,A,[('@slist_remove_by_data','''	SListItem *prev = NULL;
	SListItem *iter = list->head;
	while(iter)
	{
		SListItem *next = iter->next;
		if(list->compare(iter->data, data) == 0)
		{
			if(prev) { prev->next = next; } else { list->head = next; }
			if(!next) { list->tail = prev; }
			_slist_item_free(list, iter);
			--list->count;
			if(!remove_all) { break; }
		}
		else
		{
			prev = iter;
		}
		iter = next;
	}''')]),
's_rbd_return':(U,A,[('completed = !remove_all;\n\n\t\t\tSListItem *next','SListItem *next'),('*ptr = next;\n\n\t\t\t--list->count;','*ptr = next;\n--list->count;\nif(!remove_all) { return; }'),('SListItem *tail = NULL;\n\tbool completed = false;\n\n\twhile(*ptr && !completed)','SListItem *tail = NULL;\n\twhile(*ptr)')]),
's_pop_helper':(U,A,[('^slist_pop','''static void
_slist_release(SList *list, SListItem *item)
{
	if(list->pool) { list->pool->free(list->pool, item); } else { free(item); }
}
'''),('@slist_pop','''	SListItem *item = list->head;
	if(!item) { return NULL; }
	void *data = item->data;
	list->head = item->next;
	if(list->tail == item) { list->tail = NULL; }
	--list->count;
	_slist_release(list, item);
	return data;''')]),
's_find_for':(U,A,[('@_slist_find','''	for(SListItem *iter = offset != NULL ? offset : list->head; iter != NULL; iter = iter->next)
	{
		if(list->compare(iter->data, data) == 0) { return iter; }
	}
	return NULL;''')]),
's_find_rec':(U,A,[('@_slist_find','''	SListItem *iter = list->head;
	if(offset) { iter = offset; }
	while(iter && list->compare(iter->data, data) != 0) { iter = iter->next; }
	return iter;''')]),
's_clear':(U,A,[('@slist_clear','''	SListItem *iter = list->head;
	list->count = 0;
	list->head = list->tail = NULL;
	while(iter)
	{
		SListItem *item = iter;
		iter = iter->next;
		_slist_item_free(list, item);
	}''')]),
's_clear2':(U,A,[('@slist_clear','''	while(list->head)
	{
		SListItem *item = list->head;
		list->head = item->next;
		_slist_item_free(list, item);
	}
	list->tail = NULL;
	list->count = 0;''')]),
's_contains':(U,A,[('@slist_contains','''	return slist_find(list, NULL, data) ? true : false;'''),('^slist_contains','SListItem *slist_find(const SList *list, SListItem *offset, void const *data);\n')]),
'l_detach':(L,B,[('@_list_detach','''	ListItem *prev = item->prev;
	ListItem *next = item->next;
	if(prev) { prev->next = next; } else { list->head = next; }
	if(next) { next->prev = prev; } else { list->tail = prev; }''')]),
'l_sorted_prev':(L,B,[('@_list_prepend_new_sorted','''	ListItem *item = _list_item_new(list->pool, data);
	ListItem *iter = list->head;
	while(iter && list->compare(iter->data, data) < 0) { iter = iter->next; }
	if(iter)
	{
		item->next = iter;
		item->prev = iter->prev;
		if(iter->prev) { iter->prev->next = item; } else { list->head = item; }
		iter->prev = item;
	}
	++list->count;
	return item;''')]),
'l_sorted_break':(L,B,[('@_list_prepend_new_sorted','''	ListItem *item = _list_item_new(list->pool, data);
	ListItem **ptr = &list->head;
	while(*ptr)
	{
		ListItem *cur = *ptr;
		if(list->compare(cur->data, data) >= 0)
		{
			item->next = cur;
			item->prev = cur->prev;
			cur->prev = item;
			*ptr = item;
			break;
		}
		ptr = &cur->next;
	}
	++list->count;
	return item;''')]),
'l_rbd_for':(L,B,[('@list_remove_by_data','''	ListItem *next;
	for(ListItem *iter = list->head; iter; iter = next)
	{
		next = iter->next;
		if(list->compare(iter->data, data) == 0)
		{
			list_remove(list, iter);
			if(!remove_all) { return; }
		}
	}''')]),
'l_find_simple':(L,B,[('@_list_find','''	for(ListItem *iter = offset ? offset : list->head; iter; iter = iter->next)
	{
		if(!list->compare(iter->data, data)) { return iter; }
	}
	return NULL;''')]),
'l_find_found':(L,B,[('@_list_find','''	ListItem *begin = offset ? offset : list->head;
	ListItem *end = list->tail;
	ListItem *found = NULL;

	while(begin && !found)
	{
		if(!list->compare(begin->data, data))
		{
			found = begin;
		}
		else if(!list->compare(end->data, data))
		{
			found = end;
		}
		else
		{
			begin = begin->next;

			if(begin == end)
			{
				break;
			}

			end = end->prev;
		}
	}

	return found;''')]),
'l_pop':(L,B,[('@list_pop','''	ListItem *item = list->head;
	if(item == NULL) { return NULL; }
	void *data = item->data;
	_list_detach(list, item);
	if(list->pool) { list->pool->free(list->pool, item); } else { free(item); }
	--list->count;
	return data;''')]),
'l_prepend':(L,B,[('^list_prepend','''static void
_list_link(List *list, ListItem *prev, ListItem *item, ListItem *next)
{
	item->prev = prev;
	item->next = next;
	if(prev) { prev->next = item; } else { list->head = item; }
	if(next) { next->prev = item; } else { list->tail = item; }
}
'''),('@list_prepend','''	ListItem *item = _list_item_new(list->pool, data);
	_list_link(list, NULL, item, list->head);
	++list->count;
	return item;''')]),
'l_sorted_inline':(L,B,[('@list_insert_sorted','''	assert(list->count != SIZE_MAX);
	if(list->count == 0 || list->compare(list->tail->data, data) <= 0) { return list_append(list, data); }
	return _list_prepend_new_sorted(list, data);''')]),
'l_free_back':(L,B,[('@list_free','''	ListItem *iter = list->tail;
	while(iter)
	{
		ListItem *prev = iter->prev;
		_list_item_free(list, iter);
		iter = prev;
	}''')]),
'l_clear_pop':(L,B,[('@list_clear','''	ListItem *iter = list->head;
	list->head = NULL;
	list->tail = NULL;
	list->count = 0;
	for(ListItem *next; iter; iter = next)
	{
		next = iter->next;
		_list_item_free(list, iter);
	}''')]),
}
