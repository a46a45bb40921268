/* capacity.c NAME : NAME writes vertices past the end of the polytope when it is (nearly) full, instead of refusing like r3d_clip.
 * build: cc -Isrc -I<dir of r3d-config.h> capacity.c r2d.c r3d.c rNd.c v2d.c v3d.c vNd.c -lm    (exit 1: a guard word behind the polytope changed) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#include "v2d.h"
#include "v3d.h"
extern void r2d_split_coord(r2d_poly*, r2d_poly**, r2d_real, r2d_int);
extern void r3d_split_coord(r3d_poly*, r3d_poly**, r3d_real, r3d_int);
typedef struct { r2d_poly p; unsigned char g[4096]; } G2;
typedef struct { r3d_poly p; unsigned char g[65536]; } G3;
typedef struct { rNd_poly p; unsigned char g[262144]; } GN;
static G2 a, b, c; static G3 x, y, z; static GN n;
static int hit(unsigned char *g, int k) { for(int i = 0; i < k; ++i) if(g[i] != 0xA5) return 1; return 0; }
static double rnd(void) { return 2.0*rand()/RAND_MAX - 1.0; }
static void full3(void) {
	r3d_rvec3 rb[2] = {{{-1,-1,-1}},{{1,1,1}}};
	r3d_init_box(&x.p, rb);
	for(int i = 0; i < 2000 && x.p.nverts < R3D_MAX_VERTS - 1; ++i) {
		r3d_poly keep = x.p; double v[3] = {rnd(), rnd(), rnd()}, l = sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
		r3d_plane pl = {{{-v[0]/l,-v[1]/l,-v[2]/l}}, 0.9};
		if(!r3d_clip(&x.p, &pl, 1)) x.p = keep;
	}
}
int main(int argc, char **argv) {
	const char *f = argc > 1 ? argv[1] : "r2d_clip"; int bad = 0;
	memset(a.g, 0xA5, sizeof a.g); memset(b.g, 0xA5, sizeof b.g); memset(c.g, 0xA5, sizeof c.g);
	memset(x.g, 0xA5, sizeof x.g); memset(y.g, 0xA5, sizeof y.g); memset(z.g, 0xA5, sizeof z.g); memset(n.g, 0xA5, sizeof n.g);
	r2d_rvec2 v[R2D_MAX_VERTS];
	for(int i = 0; i < R2D_MAX_VERTS; ++i) v[i].x = cos(2*M_PI*(i+.5)/R2D_MAX_VERTS), v[i].y = sin(2*M_PI*(i+.5)/R2D_MAX_VERTS);
	r2d_init_poly(&a.p, v, R2D_MAX_VERTS);
	r2d_plane half = {{{-1,0}}, 0.1};
	if(!strcmp(f, "r2d_clip")) { r2d_clip(&a.p, &half, 1); bad = hit(a.g, sizeof a.g) || a.p.nverts < 100 || a.p.nverts > 200; } /* the count itself is overwritten */
	else if(!strcmp(f, "r2d_split")) { r2d_split(&a.p, 1, half, &b.p, &c.p); bad = hit(a.g, sizeof a.g) || hit(b.g, sizeof b.g) || hit(c.g, sizeof c.g); }
	else if(!strcmp(f, "r2d_split_coord")) { r2d_poly *o[2] = {&b.p, &c.p}; r2d_split_coord(&a.p, o, 0.1, 0); bad = hit(a.g, sizeof a.g) || hit(b.g, sizeof b.g) || hit(c.g, sizeof c.g); }
	else if(!strcmp(f, "r3d_split_coord")) { r3d_poly *o[2] = {&y.p, &z.p}; full3(); r3d_split_coord(&x.p, o, 0.1, 0); bad = hit(x.g, sizeof x.g) || hit(y.g, sizeof y.g) || hit(z.g, sizeof z.g); }
	else {
		rNd_rvec rb[2]; for(int i = 0; i < RND_DIM; ++i) rb[0].xyz[i] = -1, rb[1].xyz[i] = 1;
		rNd_init_box(&n.p, rb);
		for(int i = 0; i < 3000 && !bad; ++i) {
			rNd_plane pl; double l = 0; for(int k = 0; k < RND_DIM; ++k) { pl.n.xyz[k] = rnd(); l += pl.n.xyz[k]*pl.n.xyz[k]; }
			for(int k = 0; k < RND_DIM; ++k) pl.n.xyz[k] /= -sqrt(l);
			pl.d = 0.97; rNd_clip(&n.p, &pl, 1); bad = hit(n.g, sizeof n.g);
		}
	}
	printf("%s: %s\n", f, bad ? "memory behind the vertices was overwritten" : "ok");
	return bad;
}
