import click


@click.command(help='x')
@click.option('-s', '--source', required=True)
@click.option('--no_merge/--merge', default=False)
@click.option('--lost', default=False)  # BAD
def chunk(source, no_merge):
    print(source, no_merge)
