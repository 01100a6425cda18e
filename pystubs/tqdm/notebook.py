from tqdm import tqdm, trange
