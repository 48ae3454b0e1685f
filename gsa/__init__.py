"""Static analysis of gostcrypto: abstract interpretation of its syntax tree."""
