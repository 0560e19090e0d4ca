/* stand-in for yazpp's GDU: deep copy by encoding and decoding */
#include <yazpp/gdu.h>
namespace yazpp_1 {
void GDU::base(Z_GDU *g)
{
    m_decode = odr_createmem(ODR_DECODE);
    m_gdu = 0;
    if (!g) return;
    ODR e = odr_createmem(ODR_ENCODE);
    if (z_GDU(e, &g, 0, "encode"))
    {
        int len;
        char *buf = odr_getbuf(e, &len, 0);
        odr_setbuf(m_decode, buf, len, 0);
        if (!z_GDU(m_decode, &m_gdu, 0, 0)) m_gdu = 0;
    }
    odr_destroy(e);
}
GDU::GDU(Z_APDU *a)
{
    Z_GDU g;
    g.which = Z_GDU_Z3950;
    g.u.z3950 = a;
    base(a ? &g : 0);
}
GDU::GDU(Z_GDU *g) { base(g); }
GDU::GDU(const GDU &g) { base(g.m_gdu); }
GDU::GDU() { base(0); }
GDU::~GDU() { odr_destroy(m_decode); }
GDU &GDU::operator=(const GDU &g)
{
    if (this != &g)
    {
        odr_destroy(m_decode);
        base(g.m_gdu);
    }
    return *this;
}
Z_GDU *GDU::get() const { return m_gdu; }
void GDU::move_away_gdu(ODR dst, Z_GDU **gdu)
{
    NMEM nmem = odr_extract_mem(m_decode);
    *gdu = m_gdu;
    if (*gdu) nmem_transfer(odr_getmem(dst), nmem);
    nmem_destroy(nmem);
    m_gdu = 0;
}
}
