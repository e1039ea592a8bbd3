"""torch.functional has none of the functions used here (they are in torch.nn.functional)"""
