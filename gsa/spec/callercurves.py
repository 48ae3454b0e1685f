"""Curves a caller may pass: complex multiplication curves, found offline with the
order from the norm equation (tools are not needed again; C28 checks the order)."""
B0_32 = {'p': 0xf81ee14847277562e4e8fc1575d18cd42123b76cd7d4b0d3b4f2ae9badaec301, 'a': 0x3, 'b': 0x0, 'm': 0xf81ee14847277562e4e8fc1575d18cd59550b054006aa94778e0c15f132ad712, 'q': 0x7c0f70a42393bab172747e0abae8c66acaa8582a003554a3bc7060af89956b89, 'x': 0xba1728f6355d980a2baebd10185d299f18dac991a1df849ec7b602f4c2431241, 'y': 0xd91b051f3e4286b6884bdc92c7175b399cff407f3cda1ab93e5458c837f8eaa0}
A0_32 = {'p': 0xc45fac85d2fedf84b2378bc2e77f05114333b32e51caf2382300aa7bd71444c9, 'a': 0x0, 'b': 0xb, 'm': 0xc45fac85d2fedf84b2378bc2e77f05128535300c98ffd988db258a767150ae5f, 'q': 0xc45fac85d2fedf84b2378bc2e77f05128535300c98ffd988db258a767150ae5f, 'x': 0x1, 'y': 0x7ecb72ad8d69be3dd8aa183803c6e936f014676205e7da32910be60ba8582f34}
B0_64 = {'p': 0xf154eefcd945798a95d3f304e7ca04342cdf376711c08ab9ecd36e9f79e8835e115d4d92cc3cc8b63c0ab06a0eb63233c894300ac626350ef558711bbae29eed, 'a': 0x3, 'b': 0x0, 'm': 0xf154eefcd945798a95d3f304e7ca04342cdf376711c08ab9ecd36e9f79e8835e9e2acc80605141fd17e99923f6530d7d2a124ae8d46796fa6761c5039f25d8e2, 'q': 0x78aa777e6ca2bcc54ae9f98273e5021a166f9bb388e0455cf669b74fbcf441af4f1566403028a0fe8bf4cc91fb2986be950925746a33cb7d33b0e281cf92ec71, 'x': 0xb4ffb33da2f41b27f05ef643add7832721a7698d4d50680b719e92f79b6e62868d05fa2e192d9688ad08044f8b08a5a6d66f2408149ca7cb380254d4cc29f732, 'y': 0x96d5155e07cb6bf69da477e310de42a09c0b82a06b1856b434042523ac31521acada507bbfa5fd71e586ae424931df605d5c9e06bbd7e129595746b154cda355}
A0_64 = {'p': 0xdbda8742d6af4a952e366b33e1d1d453a2cb5f390789bb08dd66a16d3585965bfc47ae857fdda746c9f41e7c0330c17d3db7088caf2fc4fb8fe5baedafe681c9, 'a': 0x0, 'b': 0xa, 'm': 0xdbda8742d6af4a952e366b33e1d1d453a2cb5f390789bb08dd66a16d3585965ad77c78615ea74942282759f86e7de64a6b7e8b811c9fb3de41053dacc1771e65, 'q': 0xdbda8742d6af4a952e366b33e1d1d453a2cb5f390789bb08dd66a16d3585965ad77c78615ea74942282759f86e7de64a6b7e8b811c9fb3de41053dacc1771e65, 'x': 0x1, 'y': 0x9f76421b7b30419a19892fc9898a76f84143d2dabab15e9e29321a0f3feb836fc6c15212788052d958e2038fa178fff766fe8351fe130d12da2ee59a3d7f5e78}
