/* Reference for the command line: the library called directly.
 *   optref FILE NAME l f stop strides sh first_unroll otl esp fsp block compilable callable
 *          exact_clast_filtering backtrack override noblocks noscalars nosimplify structure
 * prints on stdout what the library prints with exactly these settings, the program being read from FILE. */
#include <stdio.h>
#include <stdlib.h>
#include <cloog/cloog.h>

int main(int argc, char **argv)
{
	CloogState *st = cloog_state_malloc();
	CloogOptions *o = cloog_options_malloc(st);
	int *f[] = { &o->l, &o->f, &o->stop, &o->strides, &o->sh, &o->first_unroll, &o->otl, &o->esp, &o->fsp, &o->block,
		&o->compilable, &o->callable, &o->exact_clast_filtering, &o->backtrack, &o->override, &o->noblocks,
		&o->noscalars, &o->nosimplify, &o->structure };
	int i, n = sizeof(f) / sizeof(*f);
	if (argc != n + 3)
		return 2;
	for (i = 0; i < n; i++)
		*f[i] = atoi(argv[3 + i]);
	o->name = argv[2];
	o->quiet = 1;
	FILE *in = fopen(argv[1], "r");
	CloogProgram *p = cloog_program_read(in, o);
	fclose(in);
	p = cloog_program_generate(p, o);
	if (o->structure)
		cloog_program_print(stdout, p);
	cloog_program_pprint(stdout, p, o);
	cloog_program_free(p);
	cloog_options_free(o);
	cloog_state_free(st);
	return 0;
}
