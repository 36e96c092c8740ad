"""DER as a contract language: TLV parsing over an input of any length (byte i of the input is rd(i))."""
import term as T

U = T.const


def c64(n):
    return U(n, 64)


def tlv(rd, inl, at=None):
    """parse one TLV in the `inl` bytes that rd() delivers.  Returns (ok, cls, pc, num, length, hdr): ok is the condition
    that the tag is a low tag, the length is definite, at most eight octets, and that the value lies inside the input"""
    b0, b1 = rd(c64(0)), rd(c64(1))
    tag = T.zext(b0, 64)
    ok = T.ule(c64(2), inl)
    num = T.and_(tag, c64(31))
    ok = T.and_(ok, T.not_(T.eq(num, c64(31))))
    lb = T.zext(b1, 64)
    short = T.ult(lb, c64(128))
    k = T.sub(lb, c64(128))
    length = U(0, 64)
    acc = U(0, 64)
    hdr = c64(2)
    val = lb
    okl = short
    for n in range(1, 9):
        acc = T.cat(T.ext(acc, 0, 56), rd(c64(1 + n)))
        h = T.eq(lb, c64(128 + n))
        val = T.ite(h, acc, val)
        hdr = T.ite(h, c64(2 + n), hdr)
        okl = T.or_(okl, T.and_(h, T.ule(c64(2 + n), inl)))
    ok = T.and_(ok, okl)
    fits = T.ule(val, T.sub(inl, hdr))
    return T.and_(ok, fits), T.and_(tag, c64(0xc0)), T.and_(tag, c64(0x20)), num, val, hdr


def conj(*xs):
    r = T.TRUE
    for x in xs:
        r = T.and_(r, x)
    return r


def at(rd, off):
    return rd(off)


def length_octets(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def tl(tag, n):
    return bytes([tag]) + length_octets(n)
