# P16: the setter returns the previous limit and refuses other things than integers
old = clevercsv.field_size_limit()
__vp_assert(__vp_same(old, 131072), "default", "the limit is not 131072 to begin with", old)
new = __vp_sym("limit", "int")
form = __vp_pick("argument", "positional", "keyword", "text", "float", "none", "two", "two keywords")
if form in ("positional", "keyword"):
    r = clevercsv.field_size_limit(new) if form == "positional" else clevercsv.field_size_limit(limit=new)
    __vp_assert(__vp_same(r, old), "previous", "the setter does not return the previous limit", r)
    __vp_assert(__vp_same(clevercsv.field_size_limit(), new), "set", "the setter does not set the limit", clevercsv.field_size_limit())
    __vp_assert(__vp_same(clevercsv.field_size_limit(), new), "get", "asking for the limit changes it")
    r = clevercsv.field_size_limit(5)
    __vp_assert(__vp_same(r, new), "previous", "the setter does not return the previous limit", r)
else:
    refused = False
    try:
        if form == "text":
            clevercsv.field_size_limit(__vp_sym("text", "str"))
        elif form == "float":
            clevercsv.field_size_limit(__vp_sym("number", "float"))
        elif form == "none":
            clevercsv.field_size_limit(None)
        elif form == "two":
            clevercsv.field_size_limit(new, 3)
        else:
            clevercsv.field_size_limit(new, limit=3)
    except TypeError:
        refused = True
    __vp_assert(refused, "refuse", "a limit that is not one integer is accepted")
    __vp_assert(__vp_same(clevercsv.field_size_limit(), old), "kept", "a refused limit changes the limit in force", clevercsv.field_size_limit())
__vp_reach(form)
