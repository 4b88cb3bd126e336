'''
A stand-in for the cryptography package (not installable offline, and C code
that Jython could not load): HMAC-SHA256 from the standard library, and
RSA-OAEP(SHA-256), AES-128-CBC and PEM/DER keys from the JDK's own providers.
Only the surface that privcount uses.
'''
