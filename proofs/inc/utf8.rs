// UTF-8: CR and LF are single bytes that occur in no other character's encoding
pub proof fn lemma_utf8_bits(s: u32)
    ensures
        s < 128 ==> leading_byte_width_1(s) == s,
        leading_byte_width_2(s) >= 128,
        leading_byte_width_3(s) >= 128,
        leading_byte_width_4(s) >= 128,
        last_continuation_byte(s) >= 128,
        second_last_continuation_byte(s) >= 128,
        third_last_continuation_byte(s) >= 128,
{
    assert(s < 128 ==> (s & 0x7F) as u8 == s) by (bit_vector);
    assert(forall|b: u8| #![auto] (0xC0u8 | b) >= 128) by (bit_vector);
    assert(forall|b: u8| #![auto] (0xE0u8 | b) >= 128) by (bit_vector);
    assert(forall|b: u8| #![auto] (0xF0u8 | b) >= 128) by (bit_vector);
    assert(forall|b: u8| #![auto] (0x80u8 | b) >= 128) by (bit_vector);
}

pub proof fn lemma_utf8_char(c: char)
    ensures
        c == '\r' ==> encode_scalar(c as u32) == seq![13u8],
        c == '\n' ==> encode_scalar(c as u32) == seq![10u8],
        c != '\r' ==> !encode_scalar(c as u32).contains(13u8),
        c != '\n' ==> encode_scalar(c as u32)[0] != 10u8,
        c != '\n' ==> !encode_scalar(c as u32).contains(10u8),
        encode_scalar(c as u32).len() > 0,
{
    let s = encode_scalar(c as u32);
    let cc = c as u32;
    lemma_utf8_bits(cc);
    assert(cc == 13 <==> c == '\r');
    assert(cc == 10 <==> c == '\n');
    if cc < 128 {
        assert(s.len() == 1);
        assert(s[0] == cc as u8);
    } else {
        assert forall|i: int| 0 <= i < s.len() implies s[i] >= 128 by {}
    }
}

pub proof fn lemma_utf8_cons(c: Seq<char>)
    requires c.len() > 0,
    ensures encode_utf8(c) == encode_scalar(c[0] as u32) + encode_utf8(c.skip(1)),
{
}
