// C27: prints the result of every catalogue operation on every operand set.
#include "ops/api.hpp"

#include <cstdio>
#include <cstdlib>

namespace ops
{
All& all()
{
    static All a;
    return a;
}
} // namespace ops

int main(int argc, char** argv)
{
    using namespace ops;
    const int skip = argc > 1 ? atoi(argv[1]) : 0; // flags to leave out
    for (int i = 0; i < all().n; ++i)
    {
        const Catalogue& c = all().c[i];
        void* p = malloc(c.in_size);
        for (int s = 0; s < c.sets; ++s)
        {
            c.build(p, s);
            for (int k = 0; k < c.count; ++k)
            {
                if (c.ops[k].flags & skip)
                    continue;
                Out o;
                c.ops[k].run(p, 0, o);
                printf("%s|%s|%s|%d|", c.type, c.ops[k].name, c.set_names[s], c.ops[k].flags);
                for (int j = 0; j < o.n; ++j)
                    if (o.v[j] == 0 && __builtin_signbit(o.v[j]))
                        printf("-0 ");
                    else
                        printf("%.21Lg ", o.v[j]);
                printf("\n");
                fflush(stdout);
            }
        }
        free(p);
    }
    puts("end");
    return 0;
}
