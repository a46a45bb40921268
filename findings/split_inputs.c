/* cc -Isrc -I<dir of r3d-config.h> split_inputs.c r2d.c r3d.c -lm : the [in] polytopes of r2d_split / r3d_split are changed */
#include <stdio.h>
#include <string.h>
#include "r2d.h"
#include "r3d.h"
int main() {
	static r2d_poly p, a, b; static r3d_poly q, c, d;
	r2d_rvec2 b2[2] = {{{0,0}},{{1,1}}}; r3d_rvec3 b3[2] = {{{0,0,0}},{{1,1,1}}};
	r2d_init_box(&p, b2); r3d_init_box(&q, b3);
	r2d_plane p2 = {{{-1,0}}, 0.5}; r3d_plane p3 = {{{-1,0,0}}, 0.5};
	int n2 = p.nverts, n3 = q.nverts;
	r2d_split(&p, 1, p2, &a, &b); r3d_split(&q, 1, p3, &c, &d);
	printf("2D input: %d vertices before, %d after; 3D input: %d before, %d after\n", n2, p.nverts, n3, q.nverts);
	return p.nverts != n2 || q.nverts != n3;
}
