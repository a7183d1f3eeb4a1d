U='assocarray.c'; A=['assoc_*','vf_assoc*']; B='buffer.c'; BA=['buffer_*']
CASES={
'a_search_mid':(U,A,[('@_assoc_array_binary_search','''	ssize_t begin = 0;
	ssize_t end = (ssize_t)len - 1;
	int32_t result = 0;

	while(begin <= end)
	{
		*index = begin + (end - begin) / 2;
		result = compare(key, keys[*index]);
		if(result == 0) { break; }
		if(result > 0) { begin = *index + 1; } else { end = *index - 1; }
	}

	return result;''')]),
'a_search_half':(U,A,[('@_assoc_array_binary_search','''	size_t lo = 0;
	size_t hi = len;
	int32_t result = 0;

	while(lo < hi)
	{
		size_t mid = lo + (hi - lo) / 2;
		result = compare(key, keys[mid]);
		*index = (ssize_t)mid;
		if(!result) { return 0; }
		if(result < 0) { hi = mid; } else { lo = mid + 1; }
	}

	return result;''')]),
'a_insert_merge':(U,A,[('@_assoc_array_insert_after_offset','''	size_t pos = (size_t)offset + 1;
	size_t rest = array->count - pos;
	memmove(array->keys + pos + 1, array->keys + pos, rest * sizeof(void *));
	memmove(array->values + pos + 1, array->values + pos, rest * sizeof(void *));
	array->keys[pos] = key;
	array->values[pos] = value;''')]),
'a_insert_loop':(U,A,[('@_assoc_array_insert_before_offset','''	for(size_t i = array->count; i > (size_t)offset; --i)
	{
		array->keys[i] = array->keys[i - 1];
		array->values[i] = array->values[i - 1];
	}
	array->keys[offset] = key;
	array->values[offset] = value;''')]),
'a_insert_common':(U,A,[('''if(cmp < 0)
			{
				_assoc_array_insert_before_offset(array, key, value, offset);
			}
			else
			{
				_assoc_array_insert_after_offset(array, key, value, offset);
			}''','''_assoc_array_insert_at(array, key, value, cmp < 0 ? offset : offset + 1);'''),('^_assoc_array_insert_before_offset','''static void
_assoc_array_insert_at(AssocArray *array, void *key, void *value, ssize_t offset)
{
	size_t n = (array->count - (size_t)offset) * sizeof(void *);
	if(n)
	{
		memmove(&array->keys[offset + 1], &array->keys[offset], n);
		memmove(&array->values[offset + 1], &array->values[offset], n);
	}
	array->keys[offset] = key;
	array->values[offset] = value;
}
__attribute__((unused)) '''),('^_assoc_array_insert_after_offset','__attribute__((unused)) ')]),
'a_remove_early':(U,A,[('@assoc_array_remove','''	ssize_t offset = 0;
	if(!array->count || _assoc_array_binary_search(array->compare_keys, array->keys, array->count, key, &offset)) { return; }
	void *k = array->keys[offset];
	void *v = array->values[offset];
	size_t tail = array->count - 1 - (size_t)offset;
	memmove(&array->keys[offset], &array->keys[offset + 1], tail * sizeof(void *));
	memmove(&array->values[offset], &array->values[offset + 1], tail * sizeof(void *));
	--array->count;
	if(array->free_key) { array->free_key(k); }
	if(array->free_value && v) { array->free_value(v); }''')]),
'a_remove_loop':(U,A,[('''if((size_t)offset < array->count - 1)
			{
				memmove(&array->keys[offset], &array->keys[offset + 1], (array->count - 1 - offset) * sizeof(void *));
				memmove(&array->values[offset], &array->values[offset + 1], (array->count - 1 - offset) * sizeof(void *));
			}''','''for(size_t i = offset; i + 1 < array->count; ++i) { array->keys[i] = array->keys[i + 1]; array->values[i] = array->values[i + 1]; }''')]),
'a_freemem_two':(U,A,[('@_assoc_array_free_memory','''	if(array->free_key) { for(size_t i = 0; i < array->count; ++i) { array->free_key(array->keys[i]); } }
	if(array->free_value) { for(size_t i = 0; i < array->count; ++i) { if(array->values[i]) { array->free_value(array->values[i]); } } }''')]),
'a_freemem_down':(U,A,[('@_assoc_array_free_memory','''	for(size_t i = array->count; i-- > 0;)
	{
		if(array->free_value && array->values[i]) { array->free_value(array->values[i]); }
		if(array->free_key) { array->free_key(array->keys[i]); }
	}''')]),
'a_freemem_ptr':(U,A,[('@_assoc_array_free_memory','''	void **k = array->keys;
	void **v = array->values;
	for(; k < array->keys + array->count; ++k, ++v)
	{
		if(array->free_key) { array->free_key(*k); }
		if(array->free_value && *v) { array->free_value(*v); }
	}''')]),
'a_resize':(U,A,[('@_assoc_array_resize_if_necessary','''	if(array->count < array->size) { return; }
	if(array->size == ASSOC_ARRAY_MAX_SIZE)
	{
		fprintf(stderr, "%s(): array exceeds size limit.\\n", __func__);
		abort();
	}
	size_t size = array->size > ASSOC_ARRAY_MAX_SIZE / 2 ? ASSOC_ARRAY_MAX_SIZE : 2 * array->size;
	void **keys = (void **)realloc(array->keys, size * sizeof(void *));
	void **values = (void **)realloc(array->values, size * sizeof(void *));
	if(!keys || !values)
	{
		perror("realloc()");
		abort();
	}
	array->keys = keys;
	array->values = values;
	array->size = size;''')]),
'a_lookup_helper':(U,A,[('^assoc_array_lookup','''static bool
_assoc_array_locate(const AssocArray *array, const void *key, ssize_t *offset)
{
	return array->count > 0 && _assoc_array_binary_search(array->compare_keys, array->keys, array->count, key, offset) == 0;
}

'''),('@assoc_array_lookup','''	ssize_t offset = 0;
	AssocArrayPair *pair = NULL;
	if(_assoc_array_locate(array, key, &offset))
	{
		pair = &array->pair;
		pair->offset = offset;
	}
	return pair;'''),('@assoc_array_key_exists','''	ssize_t offset = 0;
	return _assoc_array_locate(array, key, &offset);''')]),
'a_iter':(U,A,[('++iter->offset;\n\n\treturn (size_t)iter->offset < iter->array->count;','ssize_t n = iter->offset + 1;\niter->offset = n;\nreturn iter->array->count > (size_t)n;')]),
'a_replace':(U,A,[('@_assoc_array_replace','''	void **slot = &array->values[offset];
	if(*slot && array->free_value) { array->free_value(*slot); }
	*slot = value;
	if(!overwrite_key) { return; }
	if(array->free_key) { array->free_key(array->keys[offset]); }
	array->keys[offset] = key;''')]),
'a_set_first':(U,A,[('@_assoc_array_insert_first','''	array->keys[0] = key;
	array->values[0] = value;
	array->count = 1;''')]),
'b_grow':(B,BA,[('@_buffer_new_realloc_size','''	size_t size = from;
	do
	{
		if(size > SIZE_MAX / 2) { return to; }
		size *= 2;
	} while(size < to);
	return size;''')]),
'b_grow_need':(B,BA,[('size_t new_size = _buffer_new_realloc_size(buf->msize, buf->msize + len);','size_t new_size = _buffer_new_realloc_size(buf->msize, buf->len + len);')]),
'b_fill_early':(B,BA,[('@buffer_fill','''	if(!buf->valid) { return false; }
	if(len > buf->max_size - buf->len)
	{
		fprintf(stderr, "%s(): buffer exceeds allowed maximum size.\\n", __func__);
		buf->valid = false;
		return false;
	}
	if(buf->len + len > buf->msize)
	{
		buf->msize = _buffer_new_realloc_size(buf->msize, buf->msize + len);
		buf->data = (char *)realloc(buf->data, buf->msize);
		if(!buf->data) { perror("realloc()"); abort(); }
	}
	char *end = buf->data + buf->len;
	for(size_t i = 0; i < len; ++i) { end[i] = data[i]; }
	buf->len += len;
	return true;''')]),
'b_fill_helper':(B,BA,[('^buffer_fill','''static void
_buffer_reserve(Buffer *buf, size_t len)
{
	if(len > buf->msize - buf->len)
	{
		size_t new_size = _buffer_new_realloc_size(buf->msize, buf->msize + len);
		char *data = (char *)realloc(buf->data, new_size);
		if(!data) { perror("realloc()"); abort(); }
		buf->data = data;
		buf->msize = new_size;
	}
}

'''),('@buffer_fill','''	RETURN_VAL_IF_INVALID(buf, false);
	if(EXCEEDS_BUFFER_MAX_SIZE(buf, len))
	{
		fprintf(stderr, "%s(): buffer exceeds allowed maximum size.\\n", __func__);
		buf->valid = false;
	}
	else
	{
		_buffer_reserve(buf, len);
		memmove(buf->data + buf->len, data, len);
		buf->len += len;
	}
	return buf->valid;''')]),
'b_fd':(B,BA,[('@buffer_fill_from_fd','''	RETURN_VAL_IF_INVALID(buf, 0);
	char data[count];
	ssize_t bytes = read(fd, data, count);
	if(bytes < 0)
	{
		perror("read()");
		return -1;
	}
	if(bytes == 0) { return 0; }
	return buffer_fill(buf, data, (size_t)bytes) ? bytes : -1;''')]),
'b_line_loop':(B,BA,[('@buffer_read_line','''	RETURN_VAL_IF_INVALID(buf, false);
	size_t i = 0;
	while(i < buf->len && buf->data[i] != '\\n') { ++i; }
	if(i == buf->len) { return false; }
	_buffer_copy_to_string(buf, i, dst, len);
	buf->len -= i + 1;
	memmove(buf->data, buf->data + i + 1, buf->len);
	return true;''')]),
'b_line_early':(B,BA,[('@buffer_read_line','''	if(!buf->valid) { return false; }
	char *ptr = memchr(buf->data, '\\n', buf->len);
	if(!ptr) { return false; }
	size_t slen = (size_t)(ptr - buf->data);
	size_t rest = buf->len - slen - 1;
	_buffer_copy_to_string(buf, slen, dst, len);
	memmove(buf->data, buf->data + slen + 1, rest);
	buf->len = rest;
	return true;''')]),
'b_copy':(B,BA,[('@_buffer_copy_to_string','''	char *target = *dst;
	if(*len <= count)
	{
		target = (char *)realloc(target, count + 1);
		if(!target) { perror("realloc()"); abort(); }
		*dst = target;
		*len = count;
	}
	memcpy(target, buf->data, count);
	target[count] = 0;''')]),
'b_tostring':(B,BA,[('@buffer_to_string','''	if(!buf->valid || !buf->len) { return NULL; }
	char *str = (char *)malloc(buf->len + 1);
	if(!str) { perror("malloc()"); abort(); }
	str[buf->len] = '\\0';
	memcpy(str, buf->data, buf->len);
	return str;''')]),
'b_tostring_calloc':(B,BA,[('@buffer_to_string','''	if(!buffer_is_valid(buf) || buf->len == 0) { return NULL; }
	char *str = (char *)calloc(buf->len + 1, 1);
	if(!str) { perror("calloc()"); abort(); }
	return memcpy(str, buf->data, buf->len);''')]),
'b_flush':(B,BA,[('@buffer_flush','''	if(!buf->valid || !buf->len) { return false; }
	_buffer_copy_to_string(buf, buf->len, dst, len);
	return true;''')]),
}
