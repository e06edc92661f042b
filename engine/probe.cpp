// Access to the circular buffer interface of the SUT (functions and macros of read_buffer.h) for property C19.
#include <stddef.h>
#include "read_buffer.h"
enum { continue_processing_dummy };
static const int P_CONT = 0, P_MORE = 1;
#define continue_processing P_CONT
#define needs_more_read P_MORE
extern "C" {
int pb_size() { return BUFFER_SIZE; }
size_t pb_structsize() { return sizeof(struct read_buffer); }
void pb_init(struct read_buffer* b) { rbuf_init(b); }
void pb_set(struct read_buffer* b, unsigned r, unsigned len) { rbuf_init(b); b->read_position = r; b->write_position = r + len; }
unsigned pb_rpos(struct read_buffer* b) { return b->read_position; }
unsigned pb_wpos(struct read_buffer* b) { return b->write_position; }
char* pb_storage(struct read_buffer* b) { return b->buffer; }
int pb_copyn(struct read_buffer* b, char* d, int n) { return rbuf_copyn(b, d, n); }
int pb_cmpn(struct read_buffer* b, const char* w, int n) { return rbuf_cmpn(b, w, n); }
bool pb_strntol(struct read_buffer* b, int* o, int max) { return rbuf_strntol(b, o, max); }
int pb_rremain(struct read_buffer* b) { return rbuf_read_remaining(b); }
int pb_rtoend(struct read_buffer* b) { return rbuf_read_to_end(b); }
int pb_rcont(struct read_buffer* b) { return rbuf_read_contiguous(b); }
int pb_wremain(struct read_buffer* b) { return rbuf_write_remaining(b); }
int pb_wtoend(struct read_buffer* b) { return rbuf_write_to_end(b); }
char* pb_rptr(struct read_buffer* b) { return RBUF_READPTR(b); }
char* pb_wptr(struct read_buffer* b) { return RBUF_WRITEPTR(b); }
char* pb_rptr2(struct read_buffer* bp) { struct read_buffer& b = *bp; return RBUF_READ(b); }
char* pb_wptr2(struct read_buffer* bp) { struct read_buffer& b = *bp; return RBUF_WRITE(b); }
void pb_rmove(struct read_buffer* bp, int n) { struct read_buffer& b = *bp; RBUF_READMOVE(b, n); }
void pb_wmove(struct read_buffer* bp, int n) { struct read_buffer& b = *bp; RBUF_WRITEMOVE(b, n); }
int pb_rlen(struct read_buffer* bp) { struct read_buffer& b = *bp; return RBUF_READLEN(b); }
int pb_wlen(struct read_buffer* bp) { struct read_buffer& b = *bp; return RBUF_WRITELEN(b); }
int pb_empty(struct read_buffer* b) { return RBUF_EMPTY(b); }
// iterates, recording the byte at each step; stops after stop steps
int pb_iterate(struct read_buffer* bp, char* out, int stop, int* steps) {
	struct read_buffer& b = *bp; int end, n, ret = P_CONT; char* buffer; int cnt = 0;
	struct F { static int f(char* p, char* out, int* cnt, int stop) { out[(*cnt)++] = *p; return *cnt >= stop ? 7 : 0; } };
	RBUF_ITERATE(b, n, buffer, end, ret, F::f(buffer, out, &cnt, stop));
	*steps = cnt; return ret;
}
}
