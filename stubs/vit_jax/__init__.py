"""Stand-in for the vit_jax package, which is not installed in this sandbox.

Only what vmoe imports: the public layers follow the published
google-research/vision_transformer sources.
"""
