"""Repository-specific static analyses for NHERI-SimCenter/pelicun."""
