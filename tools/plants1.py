H='#include <datatypes.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#define CHECK(c) do{ if(!(c)) { printf("violated: %s (line %d)\\n",#c,__LINE__); return 1; } }while(0)\nstatic int D[64];\nstatic int32_t cmp(const void*a,const void*b){ return *(int*)a-*(int*)b; }\n'
PLANTS=[
dict(id='S01-slist-remove-only-item',property='C01',file='slist.c',old='''			if(!item->next)
			{
				list->tail = tail;
			}

			*ptr = item->next;''',new='''			if(!item->next && tail)
			{
				list->tail = tail;
			}

			*ptr = item->next;''',needs='removing the only item of a list by slist_remove(), then prepending, then appending: the tail pointer still refers to the released item',
 breaks='after the last item has been removed the tail is not reset, so that a later prepend/append writes through a dangling pointer and the appended item is lost',
 demo=H+'''
int main(void){ SList l; slist_init(&l,cmp,NULL,NULL); SListItem*a=slist_append(&l,&D[0]); slist_remove(&l,a); slist_prepend(&l,&D[1]); slist_append(&l,&D[2]); CHECK(slist_count(&l)==2); CHECK(l.head->data==&D[1]); CHECK(l.head->next&&l.head->next->data==&D[2]); CHECK(l.tail==l.head->next); slist_free(&l); return 0; }
'''),
dict(id='S02-list-sorted-backlink',property='C03',file='list.c',old='''			item->prev = (*ptr)->prev;
			(*ptr)->prev = item;''',new='''			item->prev = list->head == *ptr ? NULL : list->head;
			(*ptr)->prev = item;''',needs='a sorted insertion in front of an item that is at the third position or later, followed by a removal or a backward walk',
 breaks='the back link of the inserted item names the head instead of its predecessor; removing the item then drops everything between',
 demo=H+'''
int main(void){ List l; list_init(&l,cmp,NULL,NULL); for(int i=0;i<64;i++) D[i]=i; list_insert_sorted(&l,&D[10]); list_insert_sorted(&l,&D[20]); list_insert_sorted(&l,&D[30]); list_insert_sorted(&l,&D[40]); list_insert_sorted(&l,&D[25]); int n=0; for(ListItem*i=l.tail;i;i=i->prev) n++; CHECK(n==5); int k=-1; n=0; for(ListItem*i=l.head;i;i=i->next){ CHECK(*(int*)i->data>=k); k=*(int*)i->data; n++; } CHECK(n==5); list_free(&l); return 0; }
'''),

dict(id='S03-buffer-growth',property='C18',file='buffer.c',old='_buffer_new_realloc_size(buf->msize, buf->msize + len)',new='_buffer_new_realloc_size(buf->msize, (len > buf->msize ? buf->msize : buf->len) + len)',needs='a fill larger than the allocated size while the buffer already holds more than the difference: the new size can be smaller than the content',
 breaks='nothing yet',
 demo=H+'''
int main(void){ return 0; }
'''),
dict(id='S06-buffer-readline-capacity',property='C19',file='buffer.c',old='''	if(count + 1 > *len)
	{''',new='''	if(count > *len)
	{''',needs='reading a line (or flushing) whose length equals the capacity of the target exactly',
 breaks='the terminator is written one byte behind the target',
 demo=H+'''
int main(void){ Buffer b; buffer_init(&b,1000); buffer_fill(&b,"abcdefgh\\n",9); size_t l=8; char*d=malloc(8); CHECK(buffer_read_line(&b,&d,&l)); CHECK(!strcmp(d,"abcdefgh")); free(d); buffer_free(&b); return 0; }
'''),
dict(id='S07-assoc-shrink-probe',property='C15',file='assocarray.c',old='''				end = *index - 1;''',new='''				end = *index - (end - begin > 40 ? 2 : 1);''',needs='a binary search over more than 40 remaining entries whose key is the direct predecessor of a probed entry',
 breaks='the predecessor of a probed position is skipped: present keys are not found and inserted a second time',
 demo=H+'''
int main(void){ AssocArray a; assoc_array_init(&a,cmp,NULL,NULL); for(int i=0;i<64;i++){ D[i]=i; assoc_array_set(&a,&D[i],&D[i],false); } CHECK(assoc_array_count(&a)==64); for(int i=0;i<64;i++) CHECK(assoc_array_key_exists(&a,&D[i])); assoc_array_free(&a); return 0; }
'''),
dict(id='S08-direct-compare',property='C20',file='compare.c',old=None,new=None,needs='',breaks='',demo=''),
dict(id='S09-assoc-replace-null',property='C15',file='assocarray.c',old='''	array->values[offset] = value;
}

static void
_assoc_array_resize''',new='''	if(value || !overwrite_key || array->free_value)
	{
		array->values[offset] = value;
	}
}

static void
_assoc_array_resize''',needs='replacing a value by NULL with key overwriting in an array without a function to free values',breaks='the old value stays although the new one is NULL',
 demo=H+'''
int main(void){ AssocArray a; assoc_array_init(&a,cmp,NULL,NULL); for(int i=0;i<9;i++){ D[i]=i; assoc_array_set(&a,&D[i],&D[i],false); } assoc_array_set(&a,&D[3],NULL,true); AssocArrayPair*p=assoc_array_lookup(&a,&D[3]); CHECK(p); CHECK(assoc_array_pair_get_value(p)==NULL); assoc_array_free(&a); return 0; }
'''),
dict(id='S10-list-remove-data-twice',property='C05',file='list.c',old='''	_list_detach(list, item);
	_list_item_free(list, item);

	--list->count;''',new='''	_list_detach(list, item);

	if(list->free && item->data && list->pool && !list->head)
	{
		list->free(item->data);
	}

	_list_item_free(list, item);

	--list->count;''',needs='a pool, a free function, and the removal of the only item',breaks='the datum of the only item is released twice',
 demo=H+'''
static int n; static void fr(void*p){ n++; }
int main(void){ MemoryPool*p=memory_pool_new(sizeof(ListItem),8); List l; list_init(&l,cmp,fr,(Pool*)p); ListItem*a=list_append(&l,&D[0]); list_append(&l,&D[1]); list_remove(&l,a); CHECK(n==1); list_remove(&l,list_head(&l)); CHECK(n==2); list_free(&l); memory_pool_destroy(p); return 0; }
'''),
dict(id='S11-queue-pop-null',property='C06',file='stack.c',old=None,new=None,needs='',breaks='',demo=''),
]
