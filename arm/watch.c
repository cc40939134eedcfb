/* Programs of the abstract machine of spec/Leak.tla, on the processor: r0 holds the secret, r1 and the
 * memory cells start public. Compiled without optimisation, so that every branch is one. */
volatile unsigned char cells[2];
volatile int sink;
void watch(const char *o, unsigned secret)
{
    volatile unsigned char r0 = secret, r1 = 1;
    cells[0] = 0; cells[1] = 1;
    for (; *o; o++)
        switch (*o) {
        case 'x': r0 ^= r1; break;
        case 'a': r1 &= r0; break;
        case 'm': r1 = r0; break;
        case 'c': r1 = 1; break;
        case 'z': r0 = 0; break;
        case 's': cells[0] = r0; break;
        case 'l': r1 = cells[0]; break;
        case 'L': r0 = cells[r1]; break;
        case 'S': cells[r1] = r0; break;
        case 'b': if (r0) sink++; break;
        case 'B': if (r1) sink++; break;
        }
}
