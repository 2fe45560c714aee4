"""Deterministic simulation of pyReScene: virtual disk, network, processes,
clock, threads; every choice comes from one seed."""
