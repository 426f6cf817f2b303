/* Independent, deliberately simple reference of DVB-CSA used as the oracle. */
#ifndef CSA_REF_H
#define CSA_REF_H
struct ref_key { unsigned char cw[8]; unsigned char kk[56]; };
void ref_key_set(const unsigned char *cw, struct ref_key *k);
void ref_block_decrypt(const struct ref_key *k, const unsigned char *in, unsigned char *out);
void ref_block_encrypt(const struct ref_key *k, const unsigned char *in, unsigned char *out);
/* keystream of n bytes (n multiple of 1) for the given iv */
void ref_keystream(const struct ref_key *k, const unsigned char *iv, unsigned char *out, unsigned n);
void ref_decrypt(const struct ref_key *k, unsigned char *data, unsigned len);
void ref_encrypt(const struct ref_key *k, unsigned char *data, unsigned len);
/* the same functions over a buffer of `cap` backing bytes whose payload length
   may be symbolic: bytes at or after len are left unchanged */
void ref_decrypt_sym(const struct ref_key *k, unsigned char *data, unsigned cap, unsigned len);
void ref_encrypt_sym(const struct ref_key *k, unsigned char *data, unsigned cap, unsigned len);
#endif
