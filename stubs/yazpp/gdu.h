/* Stand-in for yazpp's gdu.h (the library is not installed here): the interface
   metaproxy uses, with the documented behaviour: a GDU owns a deep copy. */
#ifndef VERIF_YAZPP_GDU_H
#define VERIF_YAZPP_GDU_H
#include <yaz/proto.h>
#include <yaz/odr.h>
namespace yazpp_1 {
    class GDU {
    public:
        GDU(Z_APDU *apdu);
        GDU(Z_GDU *gdu);
        GDU(const GDU &g);
        GDU();
        ~GDU();
        GDU &operator=(const GDU &g);
        Z_GDU *get() const;
        void move_away_gdu(ODR dst, Z_GDU **gdu);
    private:
        void base(Z_GDU *gdu);
        Z_GDU *m_gdu;
        ODR m_decode;
    };
}
#endif
