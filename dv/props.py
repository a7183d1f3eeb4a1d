"""Which functions decide which property."""
FREEL={'freed','leak'}
CONT={'seq','count','sorted','ret','config','content','pairs','iter','balance'}
# id: (functions, soft labels that do not concern the property, title of the contracts involved)
PROPS={
 'C01':(['slist_*','!slist_find','!slist_contains','!slist_insert_sorted'],FREEL),
 'C02':(['list_*','!list_find','!list_contains','!list_insert_sorted'],FREEL),
 'C03':(['slist_insert_sorted','list_insert_sorted'],FREEL),
 'C04':(['slist_find','slist_contains','list_find','list_contains'],FREEL),
 'C05':(['slist_*','list_*'],CONT),
 'C06':(['stack_*','vf_stack_*','vf_queue_*'],FREEL),
 'C07':(['async_queue_*'],FREEL|{'wait'}),
 'C08':(['async_queue_*'],FREEL|CONT),
 'C09':(['hashtable_*','vf_hashtable_*'],FREEL|{'iter'}),
 'C10':(['hashtable_set','hashtable_init','hashtable_new'],FREEL),
 'C11':(['hashtable_iter*','vf_hashtable_iter*'],FREEL),
 'C12':(['rbtree_*','vf_rbtree_*','!rbtree_iter_*','!vf_rbtree_iter_*'],FREEL|{'balance','iter'}),
 'C13':(['rbtree_*','!rbtree_iter_*'],FREEL|{'seq','count','ret','config','content','pairs','iter'}),
 'C14':(['rbtree_iter_*','vf_rbtree_iter_*'],{'freed'}),
 'C15':(['assoc_array_*','vf_assoc_*'],FREEL),
 'C16':(['assoc_array_*','hashtable_*','rbtree_*'],CONT),
 'C17':(['memory_pool_*','memory_block_*'],set()),
 'C18':(['buffer_*','!buffer_read_line','!buffer_flush','!buffer_to_string'],FREEL),
 'C19':(['buffer_read_line','buffer_flush','buffer_to_string'],FREEL),
 'C20':(['str_*','direct_*'],FREEL),
}
# rough cost in seconds, only used to start the longest jobs first
COST={'rbtree_remove':155,'rbtree_set':36,'hashtable_set':95,'hashtable_clear':15,'hashtable_iter_next':10,'hashtable_free':8,'hashtable_remove':6,'assoc_array_set':16,'list_find':40,'assoc_array_remove':32,'list_remove_by_data':21,'slist_remove_by_data':18,'list_contains':6}
