"""Static analysis of nnj: abstract interpretation of the source into tensor index terms."""
