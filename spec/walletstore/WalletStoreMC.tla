--------------------------- MODULE WalletStoreMC ---------------------------
EXTENDS WalletStore
=============================================================================
