# Read by every make through $MAKEFILES. grayc/src/vendor/sqlite3.c is missing
# from this checkout, so its object is left out of libgrayrt.a. Once the file
# exists, this changes nothing.
ifeq ($(wildcard $(CURDIR)/src/vendor/sqlite3.c),)
override RT_OBJ = $(patsubst %.c,%.o,$(filter-out src/vendor/sqlite3.c,$(RT_SRC)))
endif
